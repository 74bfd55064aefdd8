"""M01-M03, M05-M07: model pools and their nodes, built and read through the public interface with abstract contents.

A mirror of the pool (plain Python lists) is kept while the library's own code builds the pool on abstract values; every
accessor is then compared with the mirror."""
import os
import time
from fractions import Fraction
from engine import prog, lib, njson, text as T
from engine.dom import *
from engine.interp import *
from .core import Result, AnalysisBroken
from .explore import *
from .c_ops import VT, DRV, exact_eq
from .c_expr import exc_name

UNITS = ["exception-handler", "model/nodes", "model/model", "model/string-pool", "value", "types"]
STUBS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "stubs") + "/bitsery/"
COLS = {"null": 0, "u16": 1, "i16": 2, "bool": 3, "scalar": 4, "object": 5, "array": 6, "int": 7, "float": 8, "string": 9}
MAXIDX = (1 << 24) - 1
I64 = (-(1 << 63), (1 << 63) - 1)
MODEL, NODES, NH, NI = "src/model/model.cpp", "src/model/nodes.cpp", "include/simfil/model/nodes.h", "include/simfil/model/nodes.impl.h"


def load(units=UNITS):
    return prog.load([os.path.join(prog.REPO, "src", s + ".cpp") for s in units] + [DRV + "/pools.cpp"], [DRV + "/", STUBS])


class Doc:
    """Mirror of one node: kind is null | bool | int | float | str | obj | arr | bad"""

    def __init__(self, kind, v=None, ref=None):
        self.kind, self.v, self.ref = kind, v, ref      # v of obj: [(key, Doc)], of arr: [Doc]

    def name(self):
        return self.kind


class Wire:
    def __init__(self, items=()):
        self.items = list(items)
        self.pos = 0
        self.error = 0


class MW:
    """One path."""

    def __init__(self, p, I, st):
        self.p, self.I, self.st = p, I, st
        I.max_iter = 2000
        I.step_limit = 20000000
        self.log = []
        self.seen = []
        self.stop = None
        self.res = None
        self.wires = {}
        h = I.hooks
        h["probe::visit"] = self.h_visit
        h["probe::name"] = self.h_name
        h["probe::resolved"] = self.h_resolved
        for a, d in (("bitsery::Serializer<bitsery::OutputStreamAdapter>", 0), ("bitsery::Deserializer<bitsery::InputStreamAdapter>", 1)):
            h[a + "::raw"] = self.h_read if d else self.h_write
            h[a + "::text1b"] = self.h_rtext if d else self.h_wtext
        h["bitsery::InputStreamAdapter::error"] = self.h_error
        h["bitsery::OutputStreamAdapter::OutputStreamAdapter"] = h["bitsery::InputStreamAdapter::InputStreamAdapter"] = self.h_adapter

    # ---- calls
    def call(self, n, *args):
        f = self.p.byname.get("drive::" + n)
        if not f:
            raise AnalysisBroken("driver function %s is missing" % n)
        f = f[0]
        return self.I.invoke(f, None, [x if isinstance(x, Cell) else Cell(x, q["t"].noref()) for x, q in zip(args, f["ps"])], None)

    def obj(self, n, *args):
        """Call whose result is an object: in a cell of its own."""
        r = self.call(n, *args)
        return r if isinstance(r, Cell) else Cell(r)

    def num(self, v):
        return lib.rd(self.I, v) if isinstance(v, Cell) else v

    def sv(self, t):
        if isinstance(t, str):
            t = T.const(t.encode("latin-1"))
        return Cell(lib.SvObj(t, lib.StrObj(t)))

    def fail(self, where, what, **d):
        if self.log:
            d["history"] = "; ".join(self.log)
        raise Fail(where, what, d or None)

    # ---- hooks
    def h_visit(self, I, this, a, loc):
        self.seen.append((I.concrete(lib.rd(I, a[0]), "kind"), lib.val(a[1]) if isinstance(a[1], Cell) else a[1], lib.rd(I, a[2]), lib.rd(I, a[3])))
        self.seen[-1] = (self.seen[-1][0], self.scalar(a[1])) + self.seen[-1][2:]
        return int(self.stop is None or len(self.seen) < self.stop)

    def h_name(self, I, this, a, loc):
        self.seen.append(lib.rd(I, a[0]))
        return int(self.stop is None or len(self.seen) < self.stop)

    def h_resolved(self, I, this, a, loc):
        self.res = (I.concrete(lib.rd(I, a[0]), "kind"), self.scalar(a[1]), lib.rd(I, a[2]), lib.rd(I, a[3]), lib.rd(I, a[4]))

    def scalar(self, c):
        """(kind, value) of a ScalarValueType."""
        v = c.v if isinstance(c, Cell) else c
        if not isinstance(v, lib.VarObj):
            raise Unsupported("scalar value")
        k = ("null", "bool", "int", "float", "str", "str")[v.idx]
        if k == "null":
            return ("null", None)
        x = v.c
        if k == "str":
            return (k, lib.as_text(self.I, x))
        return (k, self.I.read(x))

    # ---- wire
    def h_adapter(self, I, this, a, loc):
        v = a[0].v
        w = v.data if isinstance(v, lib.Opaque) else None
        if not isinstance(w, Wire):
            raise Unsupported("stream")
        self.w = w

    def h_write(self, I, this, a, loc):
        t = a[0].t
        v = lib.rd(I, a[0])
        if v is UNINIT:
            I.ub("an uninitialised value is written", loc)
        self.w.items.append((8 if t is not None and t.flt else (t.w or 8) // 8 if t is not None else 0, v))

    def h_read(self, I, this, a, loc):
        t = a[0].t
        n = 8 if t is not None and t.flt else (t.w or 8) // 8
        w = self.w
        if w.error or w.pos >= len(w.items):
            w.error = w.error or 2
            I.write(a[0], 0.0 if t.flt else 0)
            return
        k, v = w.items[w.pos]
        w.pos += 1
        if k != n:
            self.fail(MODEL + ": simfil::ModelPool::read", "a value written with %s bytes is read with %s" % (k, n))
        I.write(a[0], I.fit(v, t, None, conv=True) if t.isint and not t.isbool else v)

    def h_wtext(self, I, this, a, loc):
        self.w.items.append(("t", lib.as_text(I, a[0])))

    def h_rtext(self, I, this, a, loc):
        w = self.w
        if w.error or w.pos >= len(w.items):
            w.error = w.error or 2
            return
        k, v = w.items[w.pos]
        w.pos += 1
        if k != "t":
            self.fail(MODEL + ": simfil::ModelPool::read", "a text is read where something else was written")
        a[0].v.set(v)

    def h_error(self, I, this, a, loc):
        if a:
            self.w.error = self.w.error or lib.rd(I, a[0])
            return None
        return self.w.error

    def stream(self, w):
        return Cell(lib.Opaque("stream", w))

    # ---- values
    def eq(self, a, b):
        if isinstance(a, FSpecial) or isinstance(b, FSpecial):
            return isinstance(a, FSpecial) and isinstance(b, FSpecial) and a.n == b.n
        r = exact_eq(self.st, a, b)
        if r is None:
            return self.st.cmp("==", a, b, "same value")
        return r

    def same(self, got, d):
        """(type, scalar) against a mirror node."""
        t, (k, v) = got[0], got[1]
        want = {"null": "null", "bool": "bool", "int": "int", "float": "float", "str": "string", "obj": "object", "arr": "array"}[d.kind]
        if VT[t] != want:
            return "a node of kind %s reads as %s" % (want, VT[t])
        if d.kind in ("obj", "arr", "null"):
            return None if k == "null" else "a node of kind %s has a value" % want
        if k != d.kind:
            return "the value of a node of kind %s reads as %s" % (want, k)
        ok = T.eq(self.st, v, d.v) if k == "str" else self.eq(v, d.v)
        return None if ok else "a %s value reads back as another value" % want

    # ---- building
    def pool(self, dict_=None):
        return self.call("pool_with", dict_) if dict_ is not None else self.call("pool_new")

    def value(self, p, what, x=None):
        """New scalar node; what: kind + representation. Returns Doc."""
        self.log.append(what)
        k = {"bool": "bool", "i16": "int", "u16": "int", "int": "int", "float": "float", "string": "str"}[what]
        if x is None:
            x = self.any(what)
        r = self.obj("n_" + what, p, self.sv(x) if what == "string" else x)
        return Doc(k, T.const(x.encode()) if isinstance(x, str) else x, r)

    def any(self, what):
        s = self.st
        return {"bool": lambda: s.sym("b", 0, 1), "i16": lambda: s.sym("i", -(1 << 15), (1 << 15) - 1), "u16": lambda: s.sym("u", 0, (1 << 16) - 1),
                "int": lambda: s.sym("n", *I64), "float": lambda: s.sym("f", real=True), "string": lambda: T.Text([("c", TF(*self.ch())), ("c", ord("s"))])}[what]()

    def ch(self):
        c = self.st.newcs()
        return c, tuple(range(256))

    def cont(self, p, kind, cap):
        self.log.append("new %s(%d)" % (kind, cap))
        return Doc("obj" if kind == "object" else "arr", [], self.obj("n_" + kind, p, cap))

    def append(self, p, a, d):
        self.log.append("append")
        self.call("a_append", p, a.ref, d.ref)
        a.v.append(d)

    def add(self, p, o, key, d):
        self.log.append("add %s" % key)
        self.call("o_add", p, o.ref, self.sv(key), d.ref)
        o.v.append((key, d))

    # ---- reading
    def plain(self, ref):
        return self.call("m_plain", ref)

    def isset(self, c):
        return bool(self.I.concrete(self.num(self.call("n_set", c)), "set"))

    def got(self, ref):
        """(type, scalar, column, index) of the node a reference names."""
        m = self.plain(ref)
        t = self.I.concrete(self.num(self.call("n_type", m)), "kind")
        return (t, self.scalar(self.obj("n_value", m)), self.num(self.call("n_col", m)), self.num(self.call("n_idx", m)))

    def where(self, d, f=None):
        n = {"obj": "BaseObject", "arr": "BaseArray"}.get(d.kind)
        if n and f:
            return "%s: simfil::%s::%s" % (NI, n, f)
        return "%s: simfil::ModelNode::%s" % (NODES, f or "value")

    def sameref(self, c, d, where, what):
        if not self.isset(c):
            self.fail(where, "%s is missing" % what)
        m = self.plain(c)
        w = self.plain(d.ref)
        if not (self.eq(self.num(self.call("n_col", m)), self.num(self.call("n_col", w))) and self.eq(self.num(self.call("n_idx", m)), self.num(self.call("n_idx", w)))):
            self.fail(where, "%s is another node than the one stored" % what)

    def tree(self, p, ref, d, depth=6):
        """Everything below the node against the mirror; names as text."""
        b = self.same(self.got(ref), d)
        if b:
            self.fail(MODEL + ": simfil::ModelPool::resolve", b)
        if d.kind not in ("obj", "arr") or depth == 0:
            return
        m = self.plain(ref)
        n = self.I.concrete(self.num(self.call("n_size", m)), "size")
        if n != len(d.v):
            self.fail(self.where(d, "size"), "a node with %d children has size %d" % (len(d.v), n))
        for i, c in enumerate(d.v):
            if d.kind == "obj":
                k, c = c
                kid = self.num(self.call("n_key", m, i))
                self.readname(p, kid, k)
            x = self.obj("n_at", m, i)
            if not self.isset(x):
                self.fail(self.where(d, "at"), "element %d is missing" % i)
            if c.ref is not None and c.kind in ("obj", "arr"):
                self.sameref(x, c, self.where(d, "at"), "a child")
            self.tree(p, x, c, depth - 1)

    def readname(self, p, kid, k):
        o = self.obj("pool_name", p, kid).v
        if not isinstance(o, lib.OptObj):
            raise Unsupported("name")
        if o.c is None:
            self.fail(MODEL + ": simfil::ModelPool::lookupStringId", "the name of a member is not readable", name=k)
        t = lib.as_text(self.I, o.c)
        s = T.chars(self.st, t)
        if s is None or not all(isnum(x) for x in s):
            raise Unsupported("name")
        s = bytes(int(x) for x in s).decode("latin-1")
        if s.lower() != k.lower():
            self.fail(MODEL + ": simfil::ModelPool::lookupStringId", "the name of a member reads as another text", name=k, read=s)

    def texts(self, p):
        """Text storage of the pool (not its dictionary)."""
        out = []
        for c in self.impl(p).f.values():
            if isinstance(c.v, Rec):
                out += [x.v for x in c.v.f.values() if isinstance(x.v, lib.StrObj)]
            elif isinstance(c.v, lib.StrObj):
                out.append(c.v)
        return out

    def impl(self, p):
        r = p.c.v.p.c.v
        for c in r.f.values():
            if isinstance(c.v, lib.UPtr):
                return c.v.p.c.v
        raise Unsupported("pool storage")

    # ---- virtual prefix
    def columns(self, p):
        """All segmented vectors owned by the pool."""
        out, seen = [], set()

        def go(v):
            if id(v) in seen:
                return
            seen.add(id(v))
            if isinstance(v, Cell):
                go(v.v)
            elif isinstance(v, Ptr):
                go(v.c)
            elif isinstance(v, Rec):
                for (r, n), c in v.f.items():
                    if n in ("strings_", ) and isinstance(c.v, lib.SPtr):
                        continue
                    go(c)
            elif isinstance(v, lib.VecObj):
                if v.kind == "segmented_vector":
                    out.append(v)
                for c in v.items:
                    go(c)
            elif isinstance(v, lib.UPtr):
                go(v.p)
            elif isinstance(v, lib.SPtr):
                go(v.p)
        go(p)
        return out


ERRORS = ("std::runtime_error", "std::out_of_range", "std::length_error", "std::logic_error", "std::invalid_argument", "std::overflow_error")


# ------------------------------------------------------------------ M03

def addr_body(p):
    def go(I, st):
        W = MW(p, I, st)
        c, i = st.sym("col", 0, 255), st.sym("idx", 0, MAXIDX)
        v = W.num(W.call("ad_value", c, i))
        if not W.eq(W.num(W.call("ad_col", v)), c):
            W.fail(NH + ": simfil::ModelNodeAddress::column", "an address reads back another column than the one it was built from")
        if not W.eq(W.num(W.call("ad_idx", v)), i):
            W.fail(NH + ": simfil::ModelNodeAddress::index", "an address reads back another index than the one it was built from")
        c2 = st.sym("col2", 0, 255)
        v2 = W.num(W.call("ad_setcol", v, c2))
        if not W.eq(W.num(W.call("ad_col", v2)), c2):
            W.fail(NH + ": simfil::ModelNodeAddress::setColumn", "setting the column of an address does not set it")
        if not W.eq(W.num(W.call("ad_idx", v2)), i):
            W.fail(NH + ": simfil::ModelNodeAddress::setColumn", "setting the column of an address changes its index")
    return go


def inline_body(p, what, via):
    """A value stored by one of the interfaces reads back as it was; via: new | append | add"""
    def go(I, st):
        W = MW(p, I, st)
        P = W.pool()
        x = W.any(what)
        k = {"bool": "bool", "i16": "int", "u16": "int", "int": "int", "float": "float", "string": "str"}[what]
        W.log.append("%s %s" % (via, what))
        if via == "new":
            d = W.value(P, what, x)
            r = d.ref
        elif via == "append":
            a = W.cont(P, "array", 1)
            W.call("a_append_" + what, P, a.ref, W.sv(x) if what == "string" else x)
            r = W.obj("n_at", W.plain(a.ref), 0)
            d = Doc(k, x)
        else:
            a = W.cont(P, "object", 1)
            W.call("o_add_" + what, P, a.ref, W.sv("a"), W.sv(x) if what == "string" else x)
            r = W.obj("n_at", W.plain(a.ref), 0)
            W.readname(P, W.num(W.call("n_key", W.plain(a.ref), 0)), "a")
            d = Doc(k, x)
        if not W.isset(r):
            W.fail(MODEL + ": simfil::ModelPool::newValue", "a stored value has no node")
        b = W.same(W.got(r), d)
        if b:
            W.fail(MODEL + ": simfil::%s" % ("Model::newSmallValue" if what in ("bool", "i16", "u16") else "ModelPool::newValue"), b, stored=what)
    return go


SPECIAL = [0, 1, -1, 32767, 32768, -32768, -32769, 65535, 65536, 65537, I64[0], I64[1], 1 << 31, 1 << 32, -(1 << 31)]


def literal_body(p, x):
    def go(I, st):
        W = MW(p, I, st)
        P = W.pool()
        what = "float" if isinstance(x, (Fraction, FSpecial)) else "int"
        d = W.value(P, what, x)
        d2 = W.value(P, what, x)
        for y in (d, d2):
            b = W.same(W.got(y.ref), y)
            if b:
                W.fail(MODEL + ": simfil::ModelPool::newValue", b, stored=str(x))
    return go


FULLC = {"int": "columns_.i64_", "float": "columns_.double_", "string": "columns_.strings_"}


def full_body(p, what, n):
    """Adding an entry when n entries exist already: it can be read back, or an error is raised."""
    def go(I, st):
        W = MW(p, I, st)
        P = W.pool()
        for v in W.columns(P):
            v.base = n
        W.log.append("%s added to a pool that has %d of them" % (what, n))
        f = MODEL + ": simfil::ModelPool::new" + {"object": "Object", "array": "Array"}.get(what, "Value")
        try:
            if what in ("object", "array"):
                d = W.cont(P, what, 0)
            else:
                x = {"int": st.sym("n", 1 << 20, I64[1]), "float": st.sym("f", real=True), "string": "x"}[what]
                d = W.value(P, what, x)
        except CxxThrow as e:
            if n <= MAXIDX:
                W.fail(f, "adding entry %d raises an error although it has an address" % n)
            if exc_name(e) not in ERRORS:
                W.fail(site(e.loc)[0], "adding an entry beyond the address range ends in an internal error (%s)" % exc_name(e))
            return
        i = W.num(W.call("n_idx", W.plain(d.ref)))
        if not W.eq(i, n):
            W.fail(f, "a new entry of a column gets the address of another entry: another value is read back", entry=n, index=str(i))
        W.num(W.call("n_size", W.plain(d.ref)))
    return go


def text_body(p, n, k):
    """A text stored when the texts of the pool have n characters already."""
    def go(I, st):
        W = MW(p, I, st)
        P = W.pool()
        W.value(P, "string", "a")
        ss = W.texts(P)
        if len(ss) != 1:
            raise Unsupported("text storage")
        ss[0].set(T.Text([("x", T.XSeg("old", n, "old", {}))] if n else []))
        W.log.append("a text is added to a pool that has %d characters of text" % n)
        f = MODEL + ": simfil::ModelPool::newValue"
        t = T.Text([("c", TF(*W.ch())) for _ in range(k)])
        try:
            d = W.value(P, "string", t)
        except CxxThrow as e:
            if n + k < 1 << 32:
                W.fail(f, "adding a text raises an error although there is room for it")
            if exc_name(e) not in ERRORS:
                W.fail(site(e.loc)[0], "adding a text beyond the range ends in an internal error (%s)" % exc_name(e))
            return
        b = W.same(W.got(d.ref), d)
        if b:
            W.fail(f, b)
    return go


def jobs_m03(p, tier):
    J = [("addr", addr_body(p))]
    for what in ("bool", "i16", "u16", "int", "float", "string"):
        for via in ("new", "append", "add"):
            J.append(("%s %s" % (via, what), inline_body(p, what, via)))
    for x in SPECIAL + [Fraction(0), Fraction(3, 2), Fraction(-9, 4), Fraction(3), Fraction(10) ** 300] + [FSpecial(n) for n in ("nan", "inf", "-inf")]:
        J.append(("literal", literal_body(p, x)))
    for what in ("int", "float", "string", "object", "array"):
        for n in (0, 1, 255, 256, 65535, 65536, MAXIDX - 1, MAXIDX, MAXIDX + 1, MAXIDX + 2, 2 * MAXIDX + 3):
            J.append(("full", full_body(p, what, n)))
    for n in (0, 1, 65536, (1 << 32) - 3, (1 << 32) - 1, 1 << 32, (1 << 32) + 7):
        for k in (0, 1, 3):
            J.append(("text", text_body(p, n, k)))
    return J


# ------------------------------------------------------------------ M01

def fill(W, P):
    """A pool with a few entries in every column; returns the mirror by (column, index)."""
    by = {}
    arrs = [W.cont(P, "array", c) for c in (0, 2)]
    objs = [W.cont(P, "object", c) for c in (1, 0, 2)]
    big = lambda: W.st.sym("n", 1 << 17, I64[1])
    vals = [W.value(P, "int", big()), W.value(P, "int", -(1 << 40)), W.value(P, "float"), W.value(P, "string", "ab"), W.value(P, "string", ""), W.value(P, "string"),
            W.value(P, "string", "xyz")]
    small = [W.value(P, "i16"), W.value(P, "u16"), W.value(P, "bool")]
    W.append(P, arrs[1], vals[0])
    W.append(P, arrs[1], small[0])
    W.append(P, arrs[1], objs[0])
    W.add(P, objs[0], "a", vals[3])
    W.add(P, objs[2], "b", arrs[0])
    W.add(P, objs[2], "c", small[2])
    W.add(P, objs[2], "d", vals[2])
    n = {}
    for d in arrs + objs + vals:
        m = W.plain(d.ref)
        c, i = W.I.concrete(W.num(W.call("n_col", m)), "column"), W.I.concrete(W.num(W.call("n_idx", m)), "index")
        if (c, i) in by:
            W.fail(MODEL + ": simfil::ModelPool", "two entries of a pool have the same address")
        by[(c, i)] = d
        n[c] = n.get(c, 0) + 1
    for c, k in n.items():
        if sorted(i for (x, i) in by if x == c) != list(range(k)):
            W.fail(MODEL + ": simfil::ModelPool", "the entries of a column are not numbered from zero")
    W.docs = arrs + objs + vals + small
    return by, n


def resolve_body(p, col, idx, how):
    def go(I, st):
        W = MW(p, I, st)
        P = W.pool()
        by, n = fill(W, P)
        W.log = []
        # the inline columns: indices that stand for a value (their encoding is M03)
        i = st.sym("idx", 1 if col == 0 else 0, {1: 0xffff, 2: 0x7fff, 3: 1}.get(col, MAXIDX)) if idx is None else idx
        ref = W.obj("n_ref", P, col, i)
        W.log.append("column %d index %s" % (col, "any" if idx is None else idx))
        where = MODEL + ": simfil::ModelPool::resolve"
        real = col in n
        valid = col <= COLS["scalar"]
        k = None
        if real:
            if st.cmp("<", i, n[col], "existing entry"):
                k = I.concrete(i, "index")
                valid = True
        try:
            if how == "resolve":
                W.call("n_resolve", P, ref)
                if W.res is None:
                    W.fail(where, "a reference is resolved to nothing, without an error")
                got, size = W.res, I.concrete(W.num(W.res[4]), "size")
            elif how == "plain":
                got = W.got(ref)
                size = I.concrete(W.num(W.call("n_size", W.plain(ref))), "size")
            else:
                o = how == "object"
                valid = valid and col == COLS[how]
                where = MODEL + ": simfil::ModelPool::resolve" + how.capitalize()
                m = W.call("m_" + how, P, ref)
                t = I.concrete(W.num(W.call("n_type", m)), "kind")
                size = I.concrete(W.num(W.call("n_size", m)), "size")
                got = (t, ("null", None), col, i)
        except CxxThrow as e:
            if valid:
                W.fail(where, "resolving a reference to an existing entry raises an error (%s)" % exc_name(e))
            if exc_name(e) not in ERRORS:
                W.fail(site(e.loc)[0], "resolving a dangling reference ends in an internal error (%s)" % exc_name(e))
            return
        if not valid:
            W.fail(where, "a reference to an entry that does not exist is resolved")
        if real:
            d = by[(col, k)]
        elif col == COLS["null"] or col == COLS["scalar"]:
            d = Doc("null")
        elif col == COLS["bool"]:
            d = Doc("bool", i)
        else:
            d = Doc("int", i)
        b = W.same(got[:2], d)
        if b:
            W.fail(where, b)
        if real and not (W.eq(got[2], col) and W.eq(got[3], i)) and d.kind in ("obj", "arr"):
            W.fail(where, "a container is resolved to a node with another address")
        if size != (len(d.v) if d.kind in ("obj", "arr") else 0):
            W.fail(where, "a reference is resolved to an entry with another number of children")
        if d.kind in ("obj", "arr"):
            W.tree(P, ref, d)
    return go


def root_body(p, n):
    def go(I, st):
        W = MW(p, I, st)
        P = W.pool()
        ds = [W.value(P, "string", "r%d" % k) for k in range(n)]
        for d in ds:
            W.call("pool_add_root", P, d.ref)
        if not W.eq(W.num(W.call("pool_roots", P)), n):
            W.fail(MODEL + ": simfil::ModelPool::numRoots", "the number of roots is not the number of roots added")
        i = st.sym("root", 0, (1 << 63) - 1)
        ok = n and st.cmp("<", i, n, "existing root")
        if ok:
            i = I.concrete(i, "root")
        try:
            r = W.obj("pool_root", P, i)
        except CxxThrow as e:
            if ok:
                W.fail(MODEL + ": simfil::ModelPool::root", "access to an existing root raises an error")
            return
        if not ok:
            W.fail(MODEL + ": simfil::ModelPool::root", "access to a root that does not exist is no error")
        W.sameref(r, ds[i], MODEL + ": simfil::ModelPool::root", "a root")
        b = W.same(W.got(r), ds[i])
        if b:
            W.fail(MODEL + ": simfil::ModelPool::root", b)
    return go


def deep_body(p, n):
    """A pool that has n entries in every column already: what is added is found again, nothing older is touched."""
    def go(I, st):
        W = MW(p, I, st)
        P = W.pool()
        for v in W.columns(P):
            v.base = n
        W.log.append("pool with %d entries in every column" % n)

        def touched(I, v, i, loc):
            W.fail(site(I.here(loc))[0], "reading a new entry reads another entry of the column")
        try:
            ds = [W.value(P, "int", st.sym("n", 1 << 20, I64[1])), W.value(P, "float"), W.value(P, "string", "x"), W.cont(P, "array", 1), W.cont(P, "object", 0)]
            I.virtualhook = touched
            W.append(P, ds[3], ds[0])
            W.append(P, ds[3], ds[1])
            W.add(P, ds[4], "a", ds[2])
            W.add(P, ds[4], "b", ds[3])
            W.append(P, ds[3], ds[0])
            for d in ds:
                W.call("pool_add_root", P, d.ref)
            for i, d in enumerate(ds):
                r = W.obj("pool_root", P, n + i)
                W.sameref(r, d, MODEL + ": simfil::ModelPool::root", "a root")
                W.tree(P, r, d)
        except CxxThrow as e:
            W.fail(site(e.loc)[0], "an entry of a large pool is refused (%s)" % exc_name(e))
    return go


def noraise(body):
    """No operation of the scenario may raise, apart from those the scenario expects to."""
    def go(I, st):
        try:
            return body(I, st)
        except CxxThrow as e:
            w, l = site(e.loc)
            raise Fail(w, "an operation that is allowed raises an error (%s)" % exc_name(e), None, l)
    return go


def jobs_m01(p, tier):
    J = []
    for n in (0, 1, 200, 254, 255, 256, 1000, 4095, 4096, 16383, 16384, 32767, 32768, 65535, 65536, 1 << 20, 1 << 23, MAXIDX - 9):
        J.append(("large", deep_body(p, n)))
    for col in list(range(0, 13)) + [64, 127, 128, 129, 200, 255]:
        for how in ("resolve", "plain", "object", "array"):
            J.append(("%s %d" % (how, col), resolve_body(p, col, None, how)))
    for n in (0, 1, 3):
        J.append(("roots", root_body(p, n)))
    return J


# ------------------------------------------------------------------ M05

KEYS = ["a", "b", "c", "d", "e", "f", "g", "h", "k"]


def view_checks(W, m, d, how):
    """Every accessor of the node against the mirror: index and key are abstract."""
    st, I = W.st, W.I
    n = len(d.v) if d.kind in ("obj", "arr") else 0
    kids = [x[1] if d.kind == "obj" else x for x in d.v] if n else []
    wh = lambda f: W.where(d, f)
    if how == "size":
        t = I.concrete(W.num(W.call("n_type", m)), "kind")
        want = {"obj": "object", "arr": "array"}.get(d.kind)
        if want and VT[t] != want:
            W.fail(wh("type"), "a container has another kind than it was created with")
        if not W.eq(W.num(W.call("n_size", m)), n):
            W.fail(wh("size"), "the size is not the number of children stored")
    elif how == "at":
        i = st.sym("i", *I64)
        ins = n and st.cmp(">=", i, 0, "i>=0") and st.cmp("<", i, n, "i<n")
        if ins:
            i = I.concrete(i, "index")
        r = W.obj("n_at", m, i)
        if not ins:
            if W.isset(r):
                W.fail(wh("at"), "access by an index outside the node answers with a child")
        else:
            W.sameref(r, kids[i], wh("at"), "the child at index %d of %d" % (i, n) if n < 10 else "a child")
    elif how == "key":
        i = st.sym("i", *I64)
        ins = n and d.kind == "obj" and st.cmp(">=", i, 0, "i>=0") and st.cmp("<", i, n, "i<n")
        if ins:
            i = I.concrete(i, "index")
        r = W.num(W.call("n_key", m, i))
        if ins and not W.eq(r, W.ids[d.v[i][0]]):
            W.fail(wh("keyAt"), "the key at an index is not the one stored")
        if not ins and not W.eq(r, 0):
            W.fail(wh("keyAt"), "key access outside the node answers with a key")
    elif how == "get":
        k = st.sym("k", 0, 65535)
        want = None
        if d.kind == "obj":
            for name, c in d.v:
                if st.cmp("==", k, W.ids[name], "key"):
                    want = c
                    k = W.ids[name]
                    break
        r = W.obj("n_get", m, k)
        if want is None:
            if W.isset(r):
                W.fail(wh("get"), "lookup of a key that the node does not have answers with a child")
        else:
            W.sameref(r, want, wh("get"), "the member found by its key")
    elif how in ("iterate", "children", "fields", "each"):
        W.seen = []
        W.stop = 1 + st.choose(n + 1, "stops after") if n else None
        r = W.call("n_" + how, m)
        seen = W.seen
        if how == "fields":
            if W.stop is not None and len(seen) % 2 and len(seen) < W.stop and d.kind == "obj":
                W.fail(wh("at"), "iteration over fields ends between key and value")
        else:
            want = n if W.stop is None else min(n, W.stop)
            f = "iterate" if how in ("iterate", "each") else "begin"
            if len(seen) > want:
                W.fail(wh(f), "iteration goes on after it was told to stop" if want < n else "iteration visits more nodes than the node has children")
            if len(seen) < want:
                W.fail(wh(f), "iteration does not visit every child")
            for g, c in zip(seen, kids):
                b = W.same(g[:2], c)
                if b:
                    W.fail(wh(f), "iteration visits another child: " + b)
            if how in ("iterate", "each"):
                stopped = W.stop is not None and W.stop <= n
                if bool(I.concrete(W.num(r), "result")) == stopped:
                    W.fail(wh(f), "iteration reports %s" % ("completion although it was stopped" if stopped else "a stop although nothing stopped it"))
    elif how == "pairs":
        W.seen = []
        W.stop = None
        W.call("n_fields", m)
        got = W.seen
        if d.kind == "obj":
            if len(got) != 2 * n:
                W.fail(wh("at"), "iteration over fields does not visit every member once")
            for j, (k, c) in enumerate(d.v):
                b = W.same(got[2 * j + 1][:2], c)
                if not W.eq(got[2 * j], W.ids[k]) or b:
                    W.fail(wh("keyAt"), "iteration over fields pairs a key with another member's value")
    elif how == "names":
        W.seen = []
        W.stop = None
        W.call("n_names", m)
        if d.kind == "obj" and not (len(W.seen) == n and all(W.eq(x, W.ids[k]) for x, (k, _) in zip(W.seen, d.v))):
            W.fail(wh("keyAt"), "iteration over field names differs from the keys stored")


def build_containers(W, P, plan):
    """plan: list of ('object'|'array', capacity); then an order of appends; returns docs."""
    conts, order = plan
    ds = [W.cont(P, k, c) for k, c in conts]
    W.log = ["%s(%d)" % x for x in conts] + ["appends to %s" % " ".join(str(o) for o in order)]
    log, W.log = W.log, []
    count = 0
    for o in order:
        if isinstance(o, tuple):
            W.call("a_extend" if ds[o[1]].kind == "arr" else "o_extend", P, ds[o[1]].ref, ds[o[2]].ref)
            ds[o[1]].v += list(ds[o[2]].v)
            continue
        v = Doc("int", 1000 + count, W.obj("n_int", P, 1000 + count))
        d = ds[o]
        if d.kind == "arr":
            W.append(P, d, v)
        else:
            W.add(P, d, KEYS[len(d.v) % len(KEYS)], v)
        count += 1
    W.log = log
    D = W.call("dict_of", P)
    W.ids = {k: W.num(W.call("dict_emplace", D, W.sv(k))) for k in KEYS}
    return ds


def access_body(p, plan, which, view, how):
    def go(I, st):
        W = MW(p, I, st)
        P = W.pool()
        ds = build_containers(W, P, plan)
        d = ds[which]
        m = W.plain(d.ref) if view == "plain" else W.call("m_object" if d.kind == "obj" else "m_array", P, d.ref)
        if how == "each":
            W.seen = []
            W.stop = 1 + st.choose(len(d.v) + 1, "stops after")
            r = W.call("a_each", P, d.ref)
            n = min(W.stop, len(d.v))
            if len(W.seen) != n or any(W.same(g[:2], c) for g, c in zip(W.seen, d.v)):
                W.fail(W.where(d, "forEach"), "forEach does not visit the children in order until it is stopped")
            if bool(I.concrete(W.num(r), "r")) == (W.stop <= len(d.v)):
                W.fail(W.where(d, "forEach"), "forEach reports completion and stop the wrong way round")
        else:
            view_checks(W, m, d, how)
    return go


def scalar_view_body(p, what, how):
    def go(I, st):
        W = MW(p, I, st)
        P = W.pool()
        W.ids = {}
        d = Doc("null", None, W.obj("n_ref", P, 0, 1)) if what == "null" else W.value(P, what)
        view_checks(W, W.plain(d.ref), d, how)
    return go


def byname_body(p, n, q):
    """Object::get by text: abstract spelling of one character"""
    def go(I, st):
        W = MW(p, I, st)
        P = W.pool()
        ds = build_containers(W, P, ([("object", 2)], [0] * n))
        d = ds[0]
        r = W.obj("o_get", P, d.ref, W.sv(q))
        want = next((c for k, c in d.v if k.lower() == q.lower()), None)
        if want is None:
            if W.isset(r):
                W.fail(NODES + ": simfil::Object::get", "lookup of a name the object does not have answers with a child", name=q)
        else:
            W.sameref(r, want, NODES + ": simfil::Object::get", "the member found by its name")
    return go


def proc_body(p, np, nm, base, how, dup):
    """Object with np procedural fields on top of nm stored members."""
    def go(I, st):
        W = MW(p, I, st)
        P = W.pool()
        ds = build_containers(W, P, ([("object", 2)], [0] * nm))
        o = W.call("proc_on", P, ds[0].ref) if base else W.call("proc_new", P)
        d = Doc("obj", [])
        for k in range(np):
            v = Doc("int", 70000 + k, W.obj("n_int", P, 70000 + k))
            key = KEYS[0] if dup and k == 0 else KEYS[-1 - k]
            W.call("proc_put", o, W.ids[key], v.ref)
            d.v.append((key, v))
        if base:
            d.v += ds[0].v
        W.where = lambda d, f=None: "%s: simfil::ProceduralObject::%s" % (NH, f or "at")
        view_checks(W, W.call("proc_node", o), d, how)
    return go


def jobs_m05(p, tier):
    J = []
    plans = []
    N = 9 if tier == "quick" else 20
    for kind in ("array", "object"):
        other = "object" if kind == "array" else "array"
        for cap in (0, 1, 2, 3, 5):
            for n in range(0, N):
                plans.append((([(kind, cap)], [0] * n), 0))
        for cap in (0, 1, 3):
            for n in (3, 6, 9, 13):
                # three containers of the same kind growing in turn
                plans.append((([(kind, cap), (kind, 1), (kind, 0)], [0, 1, 2] * (n // 2) + [0] * (n - n // 2)), 0))
                plans.append((([(kind, 1), (kind, cap), (other, 2)], [0, 1, 0, 1, 2] * n), 1))
        for cap in (0, 2):
            plans.append((([(kind, cap), (kind, 1)], [1, 1, 1, 0, (0, 0, 1)]), 0))
            plans.append((([(kind, cap), (kind, 1)], [0, 0, 0, (0, 0, 0)]), 0))
            plans.append((([(kind, cap), (kind, 1)], [1, 0, (1, 0, 1), 1, 0, 0, (1, 1, 0)]), 1))
    for plan, which in plans:
        kind = plan[0][which][0]
        for view in ("plain", "typed"):
            for how in ("size", "at", "key", "get", "iterate", "children", "fields", "pairs", "names") + (("each",) if kind == "array" and view == "typed" else ()):
                if kind == "array" and how in ("key", "get", "fields", "pairs", "names") and (len(plan[1]) > 3 or view == "typed"):
                    continue
                if view == "plain" and len(plan[0]) == 1 and how not in ("at", "get", "key", "iterate"):
                    continue
                J.append(("%s %s %s" % (plan, view, how), access_body(p, plan, which, view, how)))
    for what in ("null", "bool", "i16", "u16", "int", "float", "string"):
        for how in ("size", "at", "key", "get", "iterate", "children", "fields", "names"):
            J.append(("%s %s" % (what, how), scalar_view_body(p, what, how)))
    for n in (0, 1, 3, 6):
        for q in ("a", "A", "c", "f", "F", "z", "", "aa"):
            J.append(("name", byname_body(p, n, q)))
    for np in (0, 1, 2, 3):
        for nm, base in ((0, False), (0, True), (1, True), (4, True)):
            for dup in (False, True) if np and nm else (False,):
                for how in ("size", "at", "key", "get", "iterate", "children", "pairs", "names"):
                    J.append(("proc %d %d %s" % (np, nm, how), proc_body(p, np, nm, base, how, dup)))
    return J


# ------------------------------------------------------------------ M06

BAD = [("object", 0), ("object", 3), ("object", MAXIDX), ("array", 0), ("array", 2), ("array", MAXIDX), ("int", 0), ("int", 9), ("float", 0), ("float", 1), ("string", 0), ("string", 7)]


def validate_body(p, place, bad, cap):
    """A pool that is sound except for one reference; bad: None | (column, distance beyond the end) | ('name',) | ('column', n)"""
    def go(I, st):
        W = MW(p, I, st)
        P = W.pool()
        W.cont(P, "array", 0)
        W.value(P, "int", 1 << 40)
        W.value(P, "float", Fraction(1, 2))
        W.value(P, "string", "s")
        ok = lambda: W.value(P, "int", 5)
        null = lambda: Doc("null", None, W.obj("n_ref", P, 0, 1))

        def target():
            if bad is None:
                return null()
            if bad[0] == "column":
                return Doc("bad", None, W.obj("n_ref", P, bad[1], 0))
            n = {"object": NOBJ, "array": NARR, "int": 1, "float": 1, "string": 1}[bad[0]]
            return Doc("bad", None, W.obj("n_ref", P, COLS[bad[0]], min(n + bad[1], MAXIDX)))

        NOBJ, NARR = 3, 4
        o = [W.cont(P, "object", cap) for _ in range(NOBJ)]
        a = [W.cont(P, "array", cap) for _ in range(NARR - 1)]
        if place[0] == "member":
            for k in range(4):
                W.add(P, o[1], KEYS[k], target() if k == place[1] else ok())
        elif place[0] == "element":
            for k in range(4):
                W.append(P, a[1], target() if k == place[1] else ok())
        else:
            W.add(P, o[1], "a", ok())
        W.add(P, o[2], "z", o[1])
        W.append(P, a[2], o[2] if place[0] != "element" else a[1])
        if place[0] == "nested":
            inner = {"oo": ("object", "object"), "oa": ("object", "array"), "ao": ("array", "object"), "aa": ("array", "array")}[place[1]]
            x = {"object": o[0], "array": a[0]}[inner[1]]
            y = {"object": o[1], "array": a[1]}[inner[0]]
            for c, d in ((x, target()), (y, x)):
                if c.kind == "obj":
                    W.add(P, c, "n", d)
                else:
                    W.append(P, c, d)
        roots = [o[2], a[2], o[1]]
        if place[0] == "root":
            roots[place[1]] = target()
        for r in roots:
            W.call("pool_add_root", P, r.ref)
        if place[0] == "name":
            # members keep ids of a dictionary that the pool no longer has
            D = W.call("dict_new")
            impl = W.impl(P)
            c = [c for c in impl.f.values() if isinstance(c.v, lib.SPtr)]
            if len(c) != 1:
                raise Unsupported("dictionary of the pool")
            D.c.v.ctl and None
            c[0].v = I.copyval(D.c.v)
        W.log = ["pool with %s %s" % (place, "null" if bad is None else bad)]
        broken = bad is not None or place[0] == "name"
        where = MODEL + ": simfil::ModelPool::checkForErrors"
        n = W.num(W.call("pool_errors", P))
        if broken and W.eq(n, 0):
            W.fail(where, "a dangling %s is not reported" % {"name": "name", "root": "root reference", "member": "reference of an object member", "element": "reference of an array element",
                                                           "nested": "reference below another container"}[place[0]])
        if not broken and not W.eq(n, 0):
            W.fail(where, "a sound pool is reported as broken")
        try:
            W.call("pool_validate", P)
        except CxxThrow as e:
            if not broken:
                W.fail(MODEL + ": simfil::ModelPool::validate", "validating a sound pool raises an error")
            if exc_name(e) != "std::runtime_error":
                W.fail(MODEL + ": simfil::ModelPool::validate", "validation ends in an internal error (%s)" % exc_name(e))
            return
        if broken:
            W.fail(MODEL + ": simfil::ModelPool::validate", "validating a pool with a dangling reference raises no error")
    return go


def jobs_m06(p, tier):
    J = []
    places = [("member", k) for k in range(4)] + [("element", k) for k in range(4)] + [("root", k) for k in range(3)] + [("nested", x) for x in ("oo", "oa", "ao", "aa")]
    caps = (0, 1, 4) if tier == "quick" else (0, 1, 2, 3, 4, 8)
    for place in places:
        for cap in caps if place[0] in ("member", "element") else (1,):
            J.append(("sound", validate_body(p, place, None, cap)))
            for b in BAD + [("column", c) for c in (10, 64, 127, 128, 255)]:
                J.append(("%s %s" % (place, b), validate_body(p, place, b, cap)))
    J.append(("name", validate_body(p, ("name",), None, 1)))
    return J


# ------------------------------------------------------------------ M07

def dict_body(p, sizes, cap, names, target, when):
    """Objects with members; the pool's dictionary is exchanged for one with other contents; names read as before."""
    def go(I, st):
        W = MW(p, I, st)
        P = W.pool()
        objs = []
        k = 0
        for n in sizes:
            o = W.cont(P, "object", cap)
            for j in range(n):
                W.add(P, o, names[k % len(names)], Doc("int", 300 + k, W.obj("n_int", P, 300 + k)))
                k += 1
            objs.append(o)
        W.call("pool_add_root", P, objs[-1].ref)
        where = MODEL + ": simfil::ModelPool::setStrings"

        def fresh(ns):
            D = W.call("dict_new")
            for n in ns:
                W.call("dict_emplace", D, W.sv(n))
            return D
        used = list(dict.fromkeys(names[j % len(names)] for j in range(k)))
        mk = {"empty": lambda: fresh([]), "reversed": lambda: fresh(used[::-1]), "shifted": lambda: fresh(["zz", "yy"] + used[1:]), "partial": lambda: fresh(used[len(used) // 2:]),
              "other": lambda: fresh(["q%d" % j for j in range(len(used) + 2)]), "equal": lambda: fresh(used), "own": lambda: W.call("dict_of", P), "rotated": lambda: fresh(used[1:] + used[:1]),
              "case": lambda: fresh([n.swapcase() for n in used[::-1]])}
        W.log = ["objects with %s members (capacity %d), dictionary exchanged for one that is %s" % (sizes, cap, " then ".join(target))]
        for t in target:
            D = mk[t]()
            W.call("dict_swap", P, D)
            if not I.concrete(W.num(W.call("dict_same", D, W.call("dict_of", P))), "same"):
                W.fail(where, "the dictionary of the pool is not the one it was given")
        if when == "grow":
            # names interned later on still get their own ids
            W.add(P, objs[0], "late", Doc("int", 299, W.obj("n_int", P, 299)))
        for o in objs:
            W.tree(P, o.ref, o)
            for j, (n, c) in enumerate(o.v):
                r = W.obj("o_get", P, o.ref, W.sv(n))
                first = next(x for m, x in o.v if m.lower() == n.lower())
                if not W.isset(r):
                    W.fail(where, "a member is not found by its name after the exchange", name=n)
                W.sameref(r, first, where, "a member found by its name after the exchange")
        if W.num(W.call("pool_roots", P)) != 1:
            W.fail(where, "exchanging the dictionary changes the roots")
    return go


def null_dict_body(p):
    def go(I, st):
        W = MW(p, I, st)
        P = W.pool()
        o = W.cont(P, "object", 1)
        W.add(P, o, "a", W.value(P, "int", 7))
        D = W.call("dict_new")
        D.c.v = lib.SPtr()
        try:
            W.call("dict_swap", P, D)
        except CxxThrow as e:
            W.tree(P, o.ref, o)
            return
        W.fail(MODEL + ": simfil::ModelPool::setStrings", "a pool accepts to have no dictionary")
    return go


def jobs_m07(p, tier):
    J = [("none", null_dict_body(p))]
    nm = ["alpha", "beta", "gamma", "delta", "eps", "zeta", "eta"]
    sizes = [(1,), (3,), (0, 2), (2, 0, 3), (5, 1), (7,), (1, 1, 1)]
    targets = [("empty",), ("reversed",), ("shifted",), ("partial",), ("other",), ("equal",), ("own",), ("rotated",), ("case",), ("reversed", "empty"), ("equal", "rotated"), ("other", "other"), ("partial", "reversed")]
    for sz in sizes:
        for cap in (0, 2) if tier == "quick" else (0, 1, 2, 4):
            for t in targets:
                for w in ("", "grow"):
                    J.append(("%s %s" % (sz, t), dict_body(p, sz, cap, nm, t, w)))
    for sz in ((70,), (2, 66)) if tier == "quick" else ((70,), (2, 130), (300,)):
        for t in (("other",), ("reversed",)):
            J.append(("%s %s" % (sz, t), dict_body(p, sz, 1, ["n%d" % i for i in range(max(sz))], t, "")))
    # names shared between objects and repeated in one object
    for t in targets:
        J.append(("shared %s" % (t,), dict_body(p, (3, 3), 2, ["x", "y"], t, "")))
    return J


# ------------------------------------------------------------------ M02

def build_pool(W, P, shape):
    """shape: list of nodes: ('v', what) | ('o', cap, members) | ('a', cap, elements) where members are earlier node numbers; then the roots"""
    nodes, roots = shape
    ds = []
    for s in nodes:
        if s[0] == "v":
            ds.append(W.value(P, s[1], *s[2:]))
        else:
            d = W.cont(P, "object" if s[0] == "o" else "array", s[1])
            for j, k in enumerate(s[2]):
                if s[0] == "o":
                    W.add(P, d, KEYS[j % len(KEYS)], ds[k])
                else:
                    W.append(P, d, ds[k])
            ds.append(d)
    for r in roots:
        W.call("pool_add_root", P, ds[r].ref)
    return ds, [ds[r] for r in roots]


A_I, A_F, A_S, A_B = ("v", "int"), ("v", "float"), ("v", "string"), ("v", "bool")
SHAPES = [
    ([], []),
    ([A_I], [0]),
    ([("v", "int", 1 << 33), ("v", "int", -(1 << 40)), A_F, ("v", "float", Fraction(5, 2)), ("v", "string", "abc"), ("v", "string", ""), A_S, A_B, ("v", "i16"), ("v", "u16")], [9, 0, 1, 2, 3, 4, 5, 6, 7, 8]),
    ([("o", 0, [])], [0]),
    ([("a", 3, [])], [0]),
    ([("v", "int", 1 << 33), ("o", 2, [0])], [1]),
    ([("v", "string", "k"), ("v", "float", Fraction(7, 4)), ("o", 0, [0, 1, 0]), ("a", 1, [2, 0, 2, 1])], [3, 2]),
    ([A_B, ("v", "string", "l"), ("a", 0, [0, 1, 0, 1, 0, 1, 0]), ("o", 1, [2, 1, 0, 2, 1, 0]), ("a", 2, [3, 2]), ("o", 3, [4])], [5, 4, 0]),
    ([("v", "u16", 7), ("a", 2, [0]), ("a", 2, [1]), ("o", 2, [2]), ("o", 2, [3, 1])], [4]),
]


def same_pool(W, Q, ds, roots, where):
    if not W.eq(W.num(W.call("pool_roots", Q)), len(roots)):
        W.fail(where, "the pool has another number of roots than it was written with")
    for i, r in enumerate(roots):
        x = W.obj("pool_root", Q, i)
        W.sameref(x, r, where, "a root")
    for d in ds:
        m = W.plain(d.ref)
        x = W.obj("n_ref", Q, W.num(W.call("n_col", m)), W.num(W.call("n_idx", m)))
        W.tree(Q, x, d, 1)


def save_body(p, shape, into, extra):
    """write, then read into: fresh | other | self"""
    def go(I, st):
        W = MW(p, I, st)
        D = W.call("dict_new")
        P = W.pool(D)
        where = MODEL + ": simfil::ModelPool::read"
        ds, roots = build_pool(W, P, shape)
        wire = Wire()
        W.call("pool_write", P, W.stream(wire))
        same_pool(W, P, ds, roots, MODEL + ": simfil::ModelPool::write")
        Q = P if into == "self" else W.pool(D)
        if extra is not None:
            build_pool(W, Q, extra)
        W.log = ["pool %s written, read into a pool that %s" % (shape, "is new" if extra is None else "has %s" % (extra,))]
        try:
            W.call("pool_read", Q, W.stream(wire))
        except CxxThrow as e:
            W.fail(where, "reading what was written raises an error (%s)" % exc_name(e))
        if wire.pos != len(wire.items):
            W.fail(where, "part of what was written is not read back")
        try:
            same_pool(W, Q, ds, roots, where)
            # and the pool stays usable
            d = W.value(Q, "int", 1 << 45)
            a = W.cont(Q, "array", 0)
            o = W.cont(Q, "object", 1)
            W.append(Q, a, d)
            W.add(Q, o, "a", a)
            W.tree(Q, o.ref, o)
            W.log.append("then extended")
            same_pool(W, Q, ds, roots, where)
            n = 0
            if into != "self" and shape[0]:
                wire2 = Wire()
                W.call("pool_write", P, W.stream(wire2))
                if len(wire2.items) != len(wire.items):
                    W.fail(MODEL + ": simfil::ModelPool::write", "writing the same pool twice writes different amounts")
        except CxxThrow as e:
            W.fail(where, "a pool that was read back raises an error (%s)" % exc_name(e))
    return go


def cut_body(p, shape, cut):
    """A truncated stream is an error."""
    def go(I, st):
        W = MW(p, I, st)
        D = W.call("dict_new")
        P = W.pool(D)
        ds, roots = build_pool(W, P, shape)
        wire = Wire()
        W.call("pool_write", P, W.stream(wire))
        if cut >= len(wire.items):
            return
        wire.items = wire.items[:cut]
        Q = W.pool(D)
        W.log = ["pool %s, stream cut after %d of its values" % (shape, cut)]
        try:
            W.call("pool_read", Q, W.stream(wire))
        except CxxThrow as e:
            if exc_name(e) not in ERRORS:
                W.fail(site(e.loc)[0], "reading a truncated stream ends in an internal error (%s)" % exc_name(e))
            return
        W.fail(MODEL + ": simfil::ModelPool::read", "reading a truncated stream is no error")
    return go


def clear_body(p, shape, after):
    def go(I, st):
        W = MW(p, I, st)
        P = W.pool()
        build_pool(W, P, shape)
        where = MODEL + ": simfil::ModelPool::clear"
        W.call("pool_clear", P)
        W.log = ["pool %s cleared" % (shape,)]
        if not W.eq(W.num(W.call("pool_roots", P)), 0):
            W.fail(where, "a cleared pool has roots")
        for v in W.columns(P):
            if v.items:
                W.fail(where, "a cleared pool keeps entries of a column", column=str(v.et))
        for s in W.texts(P):
            if not W.eq(T.length(st, s.t), 0):
                W.fail(where, "a cleared pool keeps its texts")
        ds, roots = build_pool(W, P, after)
        W.log = ["pool %s cleared, then filled with %s" % (shape, after)]
        same_pool(W, P, ds, roots, where)
    return go


def jobs_m02(p, tier):
    J = []
    for n, sh in enumerate(SHAPES):
        J.append(("fresh", save_body(p, sh, "fresh", None)))
        J.append(("self", save_body(p, sh, "self", None)))
        for ex in SHAPES[1:]:
            J.append(("other", save_body(p, sh, "fresh", ex)))
        for ex in SHAPES[5:7]:
            J.append(("self", save_body(p, sh, "self", ex)))
        for c in range(0, 60):
            J.append(("cut", cut_body(p, sh, c)))
        for ex in SHAPES[1:]:
            J.append(("clear", clear_body(p, sh, ex)))
    return J


# ------------------------------------------------------------------ M04, M08
# A document is described by: "null" | "bool" | "int" | "uint" | "float" | "string" | literal ("int", 5) | [..] | {name: ..}

U64 = (0, (1 << 64) - 1)
JSRC = "src/model/json.cpp"


def jdoc(W, x):
    """(JSON value, mirror)"""
    s = W.st
    lit = None
    if isinstance(x, tuple):
        x, lit = x
    if isinstance(x, list):
        ks = [jdoc(W, y) for y in x]
        return njson.JsonObj(njson.ARR, [Cell(a) for a, b in ks]), Doc("arr", [b for a, b in ks])
    if isinstance(x, dict):
        ks = [(k, jdoc(W, x[k])) for k in sorted(x)]
        return njson.JsonObj(njson.OBJ, [(k.encode("latin-1"), Cell(a)) for k, (a, b) in ks]), Doc("obj", [(k, b) for k, (a, b) in ks])
    if x == "null":
        return njson.JsonObj(), Doc("null")
    v = lit
    if v is None:
        v = {"bool": lambda: s.sym("b", 0, 1), "int": lambda: s.sym("n", I64[0], -1), "uint": lambda: s.sym("n", *U64), "float": lambda: s.sym("f", real=True),
             "string": lambda: T.Text([("c", TF(*W.ch())), ("c", ord("s"))])}[x]()
    elif x == "string":
        v = T.const(v.encode("latin-1"))
    k = {"bool": njson.BOOL, "int": njson.INT, "uint": njson.UINT, "float": njson.FLT, "string": njson.STR}[x]
    return njson.JsonObj(k, v), Doc({"uint": "int", "string": "str"}.get(x, x), v)


def big(W, d):
    """Unsigned numbers beyond the signed range become floating numbers."""
    if d.kind in ("obj", "arr"):
        for c in d.v:
            big(W, c[1] if d.kind == "obj" else c)
    elif d.kind == "int" and W.st.cmp(">", d.v, I64[1], "beyond the signed range"):
        d.kind = "float"


def parse_hook(W, root):
    def h(I, this, a, loc):
        W.parsed += 1
        if root is None:
            if len(a) > 2 and not I.concrete(lib.rd(I, a[2]), "allow_exceptions"):
                return njson.JsonObj(njson.DISC)
            I.throw("nlohmann::detail::parse_error", "syntax error", loc)
        return root.copy(I)
    W.parsed = 0
    W.I.hooks["nlohmann::basic_json<>::parse"] = h


def json_body(p, docs, via):
    """Documents parsed one after the other into one pool."""
    def go(I, st):
        W = MW(p, I, st)
        P = None if via == "new" else W.pool()
        ds = []
        where = JSRC + ": simfil::json::build"
        for doc in docs:
            W.log.append("%s %s" % (via, doc))
            j, d = jdoc(W, doc)
            parse_hook(W, j)
            try:
                if via == "new":
                    P = W.call("json_new", W.sv("{}"))
                elif via == "text":
                    W.call("json_into", W.sv("{}"), P)
                else:
                    W.call("json_stream", Cell(lib.Opaque("stream", None)), P)
            except CxxThrow as e:
                W.fail(where, "a valid JSON document raises an error (%s)" % exc_name(e))
            big(W, d)
            ds.append(d)
        n = W.num(W.call("pool_roots", P))
        if not W.eq(n, len(docs)):
            W.fail(JSRC + ": simfil::json::parse", "parsing %d documents makes %s roots" % (len(docs), n))
        for i, d in enumerate(ds):
            try:
                r = W.obj("pool_root", P, i)
            except CxxThrow as e:
                W.fail(where, "the root of a parsed document cannot be read (%s)" % exc_name(e))
            if not W.isset(r):
                W.fail(where, "the root of a parsed document is missing")
            try:
                W.tree(P, r, d)
            except CxxThrow as e:
                W.fail(where, "a parsed document cannot be read (%s)" % exc_name(e))
    return go


def invalid_body(p, via):
    def go(I, st):
        W = MW(p, I, st)
        P = W.pool()
        parse_hook(W, None)
        W.log.append("an invalid document")
        try:
            if via == "new":
                W.call("json_new", W.sv("{"))
            elif via == "text":
                W.call("json_into", W.sv("{"), P)
            else:
                W.call("json_stream", Cell(lib.Opaque("stream", None)), P)
        except CxxThrow as e:
            if not W.eq(W.num(W.call("pool_roots", P)), 0):
                W.fail(JSRC + ": simfil::json::parse", "an invalid document leaves a root behind")
            return
        W.fail(JSRC + ": simfil::json::parse", "an invalid document is no error")
    return go


SC = ["null", "bool", "int", "uint", "float", "string"]
LITS = [("int", x) for x in (-1, -32768, -32769, I64[0], -(1 << 31), -65536)] + [("uint", x) for x in (0, 1, 32767, 32768, 65535, 65536, I64[1], I64[1] + 1, U64[1], 1 << 32)] + \
    [("float", FSpecial(x)) for x in ("inf", "-inf") if 0] + [("string", x) for x in ("", "a", "\x00b", "\xff\xfe")] + [("float", Fraction(1, 2)), ("float", Fraction(3)), ("float", Fraction(0))]
DOCS = SC + LITS + [[], {}] + [[a] for a in SC] + [{"a": a} for a in SC] + [[a, b] for a in SC for b in SC] + [{"b": a, "a": b} for a in SC for b in SC] + [
    [[]], [{}], {"a": []}, {"a": {}}, [[["null"]]], {"a": {"a": {"a": "int"}}}, [[], "null", []], [{}, {"a": "null"}, {}],
    ["int", ["string", {"c": "float", "b": [], "a": "null"}], {}, "bool"],
    {"x": ["int", {"y": "uint", "x": "string"}], "": "bool", "_": "null", "\xc3\xa4": "float"},
    [("int", -1)] * 9, {chr(97 + i): ("uint", i * 1000) for i in range(12)}, [{"k": "int"}, {"k": "string"}, {"j": "null", "k": []}],
    [["int"], ["int", "int"], ["int", "int", "int"]],
]


def jobs_m04(p, tier):
    J = []
    for d in DOCS:
        for via in ("new", "text", "stream"):
            J.append((via, json_body(p, [d], via)))
    C = SC + [[], {}, ["null"], {"a": "string"}]
    for a in C:
        for b in C:
            J.append(("more", json_body(p, [a, b], "text")))
            J.append(("more", json_body(p, [b, a], "stream")))
    for via in ("new", "text", "stream"):
        J.append(("invalid", invalid_body(p, via)))
    if tier != "quick":
        for a in C:
            for b in C:
                for c in C:
                    J.append(("more", json_body(p, [a, b, c], "text")))
                    J.append(("deep", json_body(p, [{"b": [a, {"a": b}], "a": c}], "new")))
                    J.append(("deep", json_body(p, [[a, {"a": b, "b": [c]}, a]], "new")))
    return J


def jeq(W, j, d, names=None):
    """Difference between a JSON value and the mirror of the node it was made from."""
    K = {"null": (njson.NULL_,), "bool": (njson.BOOL,), "int": (njson.INT, njson.UINT), "float": (njson.FLT,), "str": (njson.STR,), "obj": (njson.OBJ,), "arr": (njson.ARR,)}[d.kind]
    if j.kind not in K:
        return "a node of kind %s prints as a JSON %s" % (d.kind, njson.NAMES[j.kind])
    if d.kind == "null":
        return None
    if d.kind == "arr":
        if len(j.v) != len(d.v):
            return "an array of %d elements prints with %d" % (len(d.v), len(j.v))
        for c, x in zip(j.v, d.v):
            b = jeq(W, c.v, x)
            if b:
                return b
        return None
    if d.kind == "obj":
        want = {}
        for k, x in d.v:
            want.setdefault(W.spell.get(k.lower(), k), []).append(x)
        multi = any(len(x) > 1 for x in want.values())
        if multi:
            want["_multimap"] = True
        got = {k.decode("latin-1"): c.v for k, c in j.v}
        if set(got) != set(want):
            return "an object with the members %s prints with the members %s" % (sorted(want), sorted(got))
        for k, xs in want.items():
            g = got[k]
            if xs is True:
                if g.kind != njson.BOOL or not W.eq(g.v, 1):
                    return "the mark of an object with repeated members is not true"
            elif multi:
                if g.kind != njson.ARR or len(g.v) != len(xs):
                    return "the values of a repeated member do not print as an array of them"
                for c, x in zip(g.v, xs):
                    b = jeq(W, c.v, x)
                    if b:
                        return b
            else:
                b = jeq(W, g, xs[0])
                if b:
                    return b
        return None
    ok = T.eq(W.st, j.v, d.v) if d.kind == "str" else W.eq(j.v, d.v)
    return None if ok else "a %s value prints as another value" % d.kind


def build_doc(W, P, x):
    """A document built through the pool interface; objects may be lists of pairs: ("obj", [(name, doc), ...])"""
    if isinstance(x, tuple) and x[0] == "obj":
        o = W.cont(P, "object", 1)
        for k, y in x[1]:
            c = build_doc(W, P, y)
            W.spell.setdefault(k.lower(), k)
            W.add(P, o, k, c)
        return o
    if isinstance(x, list):
        a = W.cont(P, "array", 1)
        for y in x:
            W.append(P, a, build_doc(W, P, y))
        return a
    if x == "null":
        return Doc("null", None, W.obj("n_ref", P, 0, 1))
    return W.value(P, x)


def print_body(p, docs):
    def go(I, st):
        W = MW(p, I, st)
        W.spell = {}
        P = W.pool()
        ds = []
        for x in docs:
            d = build_doc(W, P, x)
            W.call("pool_add_root", P, d.ref)
            ds.append(d)
        W.log.append("printed")
        try:
            for d in ds:
                j = W.obj("n_json", W.plain(d.ref)).v
                if not isinstance(j, njson.JsonObj):
                    raise Unsupported("json")
                b = jeq(W, j, d)
                if b:
                    W.fail(NODES + ": simfil::ModelNode::toJson", b)
            j = W.obj("pool_json", P).v
            b = jeq(W, j, Doc("arr", ds))
            if b:
                W.fail(MODEL + ": simfil::ModelPool::toJson", b)
        except CxxThrow as e:
            W.fail(NODES + ": simfil::ModelNode::toJson", "printing a document raises an error (%s)" % exc_name(e))
    return go


def round_body(p, doc):
    """Input, output."""
    def go(I, st):
        W = MW(p, I, st)
        W.spell = {}
        j, d = jdoc(W, doc)
        parse_hook(W, j)
        W.log.append("%s parsed and printed" % (doc,))
        try:
            P = W.call("json_new", W.sv("{}"))
            big(W, d)
            r = W.obj("n_json", W.plain(W.obj("pool_root", P, 0))).v
        except CxxThrow as e:
            W.fail(NODES + ": simfil::ModelNode::toJson", "a document raises an error (%s)" % exc_name(e))
        b = jeq(W, r, d)
        if b:
            W.fail(NODES + ": simfil::ModelNode::toJson", b)
    return go


def O(*kv):
    return ("obj", list(kv))


SP = ["bool", "i16", "u16", "int", "float", "string", "null"]
PDOCS = SP + [[], O(), [[]], [O()], O(("a", O())), O(("a", []))] + [[a] for a in SP] + [O(("k", a)) for a in SP] + [[a, b] for a in SP for b in SP if a != b] + \
    [O(("b", a), ("a", b)) for a in SP for b in SP] + [O(("a", a), ("a", b)) for a in SP + [[], ["int"], O()] for b in SP + [[], ["int"], O()]] + [
    O(("a", "int"), ("a", "bool"), ("a", "float")), O(("a", "u16"), ("b", "float"), ("a", "u16")), O(("a", "int"), ("b", "string"), ("b", "int")),
    O(("b", "int"), ("a", "string"), ("b", "int"), ("c", []), ("a", "bool")), O(("b", ["int"]), ("b", ["float", "bool"]), ("b", [])), O(("a", "int"), ("A", "int")),
    O(("a", "bool"), ("a", "float"), ("b", "u16"), ("c", "float"), ("b", "bool"), ("b", "float")), O(("c", []), ("b", O()), ("a", [[]]), ("b", "null"), ("d", [])),
    [O(("a", "u16"), ("a", "float")), O(("a", "int"))], O(("a", O(("x", "u16"), ("x", "float"))), ("b", O(("x", "int")))), [["int"], [["string"]], "bool"],
]


def jobs_m08(p, tier):
    J = []
    for d in PDOCS:
        J.append(("print", print_body(p, [d])))
    C = ["null", "int", [], O(), ["string"], O(("a", "int")), O(("a", "int"), ("a", "string"))]
    J.append(("print", print_body(p, [])))
    for a in C:
        for b in C:
            J.append(("roots", print_body(p, [a, b])))
            J.append(("print", print_body(p, [[a, b]])))
            J.append(("print", print_body(p, [O(("n", a), ("m", b))])))
            J.append(("print", print_body(p, [O(("n", a), ("n", b), ("m", a))])))
            if tier != "quick":
                for c in C:
                    J.append(("print", print_body(p, [O(("n", a), ("m", b), ("m", c))])))
                    J.append(("print", print_body(p, [O(("n", a), ("m", b), ("n", c), ("m", a))])))
                    J.append(("roots", print_body(p, [a, [b, c], b])))
    for d in DOCS:
        J.append(("round", round_body(p, d)))
    return J



# ------------------------------------------------------------------ M09: overlays

OV = "src/overlay.cpp"


def ov_value(W, P, o, key, what):
    """Sets an overlay member; returns its mirror."""
    W.log.append("set %s = %s" % (key, what))
    k = W.ids[key]
    if what == "node":
        d = Doc("int", 4000 + len(W.log), W.obj("n_int", P, 4000 + len(W.log)))
        W.call("ov_set_node", o, k, d.ref)
        return d
    if what == "array":
        d = W.cont(P, "array", 2)
        W.append(P, d, W.value(P, "int", 77))
        W.call("ov_set_node", o, k, d.ref)
        return d
    if what == "null":
        W.call("ov_set_null", o, k)
        return Doc("null")
    x = W.any(what)
    kind = {"int": "int", "float": "float", "bool": "bool", "string": "str"}[what]
    W.call("ov_set_" + what, o, k, Cell(lib.StrObj(x)) if what == "string" else x)
    return Doc(kind, x)


def overlay_body(p, base, sets, how, view):
    """base: members of the wrapped object | 'array' | scalar kind; sets: [(key, what)]"""
    def go(I, st):
        W = MW(p, I, st)
        P = W.pool()
        n = base if isinstance(base, int) else 2 if base == "array" else 0
        ds = build_containers(W, P, ([("array" if base == "array" else "object", 2)], [0] * n))
        d = ds[0]
        if isinstance(base, int) or base == "array":
            o = W.call("ov_node" if view != "value" else "ov_ptr", d.ref)
        elif base == "node":
            d = W.value(P, "int")
            o = W.call("ov_ptr", d.ref)
        else:
            x = None if base == "null" else W.any(base)
            d = Doc({"int": "int", "string": "str", "null": "null"}[base], x)
            o = W.call("ov_null") if x is None else W.call("ov_" + base, Cell(lib.StrObj(x)) if base == "string" else x)
        m = None
        late = view == "late"
        if late:
            m = W.call("ov_copy", o)       # a second handle: what is set later is seen through it too
        top = {}
        for key, what in sets:
            top[key] = ov_value(W, P, o, key, what)
        if m is None:
            m = W.call("ov_" + view, o)
        where = lambda f: "%s: simfil::OverlayNode::%s" % (OV, f)
        if how == "self":
            t = VT[I.concrete(W.num(W.call("n_type", m)), "kind")]
            if t != "object":
                W.fail(where("type"), "an overlay is not an object, so its members are not reachable")
            k, v = W.scalar(W.obj("n_value", m))
            want = d.kind if d.kind not in ("obj", "arr") else "null"
            if k != want or (k == "str" and not T.eq(st, v, d.v)) or (k in ("int", "bool", "float") and not W.eq(v, d.v)):
                W.fail(where("value"), "the value of an overlay is not the one of the value it wraps")
        elif how == "get":
            k = st.sym("k", 0, 65535)
            want, hit = None, False
            for name, c in list(top.items()) + ([x for x in d.v if x[0] not in top] if d.kind == "obj" else []):
                if st.cmp("==", k, W.ids[name], "key"):
                    want, hit = c, name in top
                    k = W.ids[name]
                    break
            r = W.obj("n_get", m, k)
            if want is None:
                if W.isset(r):
                    W.fail(where("get"), "lookup of a key that neither the overlay nor the wrapped value has answers with a child")
                return
            what = "a member set on the overlay" if hit else "a member of the wrapped object"
            if want.ref is not None:
                W.sameref(r, want, where("get"), what)
                W.tree(P, r, want)
            else:
                if not W.isset(r):
                    W.fail(where("get"), what + " is missing")
                q = W.plain(r)
                b = W.same((I.concrete(W.num(W.call("n_type", q)), "kind"), W.scalar(W.obj("n_value", q))), want)
                if b:
                    W.fail(where("get"), what + " is another value: " + b)
                if not W.eq(W.num(W.call("n_size", q)), 0):
                    W.fail(where("get"), "a plain value set on the overlay has children")
        else:
            keep = W.where
            W.where = lambda d, f=None: where(f or "at")
            if how == "size":
                if not W.eq(W.num(W.call("n_size", m)), len(d.v) if d.kind in ("obj", "arr") else 0):
                    W.fail(where("size"), "the size of an overlay is not the one of the value it wraps")
            else:
                view_checks(W, m, d, how)
    return go


def jobs_m09(p, tier):
    J = []
    sets = [[], [("a", "int")], [("h", "node")], [("a", "string"), ("k", "float")], [("b", "bool"), ("a", "array"), ("h", "null")], [("a", "int"), ("a", "string")],
            [("h", "node"), ("h", "int"), ("b", "node")], [("k", "null"), ("a", "node")], [("g", "string"), ("h", "int"), ("k", "bool"), ("a", "float")], [("a", "array"), ("a", "null")],
            [("b", "int"), ("a", "node"), ("b", "node")]]
    views = ["self", "copy", "base", "value", "late"]
    for base in [0, 1, 3] + ["array", "node", "int", "string", "null"]:
        for i, s in enumerate(sets):
            for how in ("self", "get", "size", "at", "key", "iterate") + (("names", "pairs") if isinstance(base, int) else ()):
                for v in views if how == "get" or tier == "thorough" else [views[(i + len(how)) % 5]]:
                    if how in ("at", "key", "iterate", "names", "pairs") and i > 4 and tier != "thorough":
                        continue
                    J.append(("overlay on %s" % base, overlay_body(p, base, s, how, v)))
    return J


EXPL = {
    "M09": "overlays over objects, arrays, nodes and plain values with every listed sequence of set operations (nodes, containers, plain abstract values, null, repeated), read through the overlay itself, copies made "
           "before and after, and plain references: get with an abstract key, every other accessor with abstract index",
    "M04": "JSON documents of every kind with abstract numbers, strings and booleans, nested and next to each other, parsed from text and stream into new and filled pools; boundary numbers; documents the JSON library rejects",
    "M08": "documents of every kind with abstract values, objects with repeated members in every order, several roots; documents parsed and printed again",
    "M01": "references with every column id and every 24-bit index (abstract) against a pool with entries in each column, through resolve, the node interface and the typed accessors; every root index; new entries of pools with up to 2^24 entries in every column",
    "M02": "pools of nine shapes with abstract values: written and read into new, filled and the same pool, cut after every value; cleared and refilled",
    "M05": "containers grown by every listed sequence of appends and extends next to others that grow in between; every accessor with abstract index and key, iteration stopped at every position; scalars; "
           "objects with procedural fields",
    "M06": "pools with one dangling reference at every kind of place to every column, and sound pools",
    "M07": "objects of several sizes and capacities, dictionaries with the same, some, other or re-ordered names, exchanged once or twice",
    "M03": "addresses with every column and index; every storing interface with every value of its type (abstract), boundary literals, and columns filled up to and beyond the address range",
}
JOBS = {"M01": jobs_m01, "M02": jobs_m02, "M03": jobs_m03, "M05": jobs_m05, "M06": jobs_m06, "M07": jobs_m07, "M04": jobs_m04, "M08": jobs_m08, "M09": jobs_m09}


def check(pid, tier):
    from .c_values import run
    p = load(UNITS + (["model/json"] if pid in ("M04", "M08") else ["overlay"] if pid == "M09" else []))
    deadline = time.time() + (420 if tier == "quick" else 780)
    return run(p, pid, [(n, noraise(b)) for n, b in JOBS[pid](p, tier)], deadline, EXPL[pid], n=32)
