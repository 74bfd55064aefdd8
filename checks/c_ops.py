"""O01-O05: abstract interpretation of every operator dispatch for every pair of operand kinds, with abstract integers, floats,
strings and user-defined values."""
import os
import time
from engine import prog, lib, text as T
from engine.dom import *
from engine.interp import *
from .core import Result, AnalysisBroken
from .explore import *

DRV = os.path.join(prog.VERIF, "drivers")
SOURCES = ("src/types.cpp", "src/exception-handler.cpp", "src/model/nodes.cpp", "src/model/model.cpp", "src/model/string-pool.cpp")

VT = ["undef", "null", "bool", "int", "float", "string", "transient", "object", "array"]
I64 = (-(1 << 63), (1 << 63) - 1)
NAN = "nan"

ARITH = {"add": "+", "sub": "-", "mul": "*", "div": "/", "mod": "%", "bit_and": "&", "bit_or": "|", "bit_xor": "^", "shl": "<<", "shr": ">>",
         "subscript": "[]"}
CMP = {"eq": "==", "neq": "!=", "lt": "<", "lteq": "<=", "gt": ">", "gteq": ">="}
UNARY = {"negate": "-", "boolean": "?", "lnot": "not", "bit_inv": "~", "bitinv": "~", "len": "#", "type_of": "typeof", "asint": "int",
         "asfloat": "float", "asstring": "string"}
BINOPS = {**ARITH, **CMP}


class Val:
    """A result, read through the public members of simfil::Value."""

    def __init__(self, I, c):
        r = c.v if isinstance(c, Cell) else c
        if not isinstance(r, Rec):
            raise Unsupported("operator result %r" % (r,))
        self.rec = r
        t = I.st.simp(I.read(r.get("type")))
        if not isnum(t):
            raise Unsupported("abstract kind tag")
        self.kind = VT[t]
        v = r.get("value").v
        self.alt = v.types[v.idx]
        self.cell = v.c
        self.val = v.c.v

    def altkind(self):
        t = self.alt
        if t.n == "std::monostate":
            return "null"
        if t.isbool:
            return "bool"
        if t.isint:
            return "int"
        if t.flt:
            return "float"
        if t.n in ("std::basic_string", "std::basic_string_view"):
            return "string"
        return "transient"

    def consistent(self):
        a = self.altkind()
        if self.kind in ("undef", "null", "object", "array"):
            return a == "null"
        return a == self.kind


def text(I, v):
    return lib.as_text(I, v)


def pystr(I, v):
    """Constant text as a python string, None when it is abstract."""
    t = T.norm(I.st, text(I, v).segs) if not isinstance(v, T.Text) else T.norm(I.st, v.segs)
    out = []
    for s in t.segs:
        if s[0] != "c" or not isnum(s[1]):
            return None
        out.append(int(s[1]) & 255)
    return bytes(out).decode("latin-1")


class World:
    """Interpreter environment shared by the operator scenarios."""

    def __init__(self, p, I, st):
        self.p, self.I, self.st = p, I, st
        self.calls = []
        I.hooks["probe::init"] = self.h_init
        I.hooks["probe::copy"] = self.h_copy
        I.hooks["probe::deinit"] = self.h_deinit
        I.hooks["probe::unary"] = self.h_unary
        I.hooks["probe::binary_left"] = self.h_left
        I.hooks["probe::binary_right"] = self.h_right
        I.hooks["probe::size"] = lambda I, this, a, loc: self.size()
        I.hooks["probe::kind"] = lambda I, this, a, loc: VT.index(self.nodekind)
        self.nodekind = "object"
        self._size = None
        self.objs = []       # [meta, alive]
        self.last = None

    def size(self):
        if self._size is None:
            self._size = self.st.sym("size", 0, (1 << 32) - 1)
        return self._size

    # ---- user-defined objects
    def token(self, meta):
        o = lib.LibValue()
        o.meta, o.alive = meta, True
        o.no = len(self.objs)
        self.objs.append(o)
        return Ptr(Cell(o))

    def meta(self, a):
        v = lib.rd(self.I, a)
        return v.c.v if isinstance(v, Ptr) else v

    def obj(self, meta, a, what, loc):
        v = lib.rd(self.I, a)
        if not isinstance(v, Ptr):
            raise Fail(site(self.I.here(loc))[0], "a user-defined type's %s is called without an object" % what)
        o = v.c.v
        if not o.alive:
            raise Fail(self.site(), "a user-defined value is used after it was destroyed (%s)" % what)
        if o.meta is not meta:
            raise Fail(self.site(), "a user-defined value is passed to another type's %s" % what)
        return o

    def site(self):
        for fr in reversed(self.I.frames):
            f = fr.fn
            if f.get("f", "").startswith(prog.REPO):
                return "%s: %s" % (f["f"].replace(prog.REPO.rstrip("/") + "/", ""), f["n"])
        return "include/simfil/transient.h: simfil::TransientObject"

    def h_init(self, I, this, a, loc):
        return self.token(self.meta(a[0]))

    def h_copy(self, I, this, a, loc):
        m = self.meta(a[0])
        self.obj(m, a[1], "copy", loc)
        if getattr(self, "copythrows", False) and self.st.choose(2, "copy throws") == 1:
            I.throw("std::bad_alloc", "", loc)
        return self.token(m)

    def h_deinit(self, I, this, a, loc):
        v = lib.rd(I, a[1])
        if isinstance(v, NullT):
            return None
        o = v.c.v
        if not o.alive:
            raise Fail(self.site(), "a user-defined value is destroyed twice")
        if o.meta is not self.meta(a[0]):
            raise Fail(self.site(), "a user-defined value is destroyed by another type")
        o.alive = False
        return None

    def result(self):
        return self.I.invoke(self.fn("v_int"), None, [Cell(4711)], None)

    def fn(self, n):
        fs = self.p.byname.get("drive::" + n)
        if not fs:
            raise AnalysisBroken("driver function %s is missing" % n)
        return fs[0]

    def h_unary(self, I, this, a, loc):
        self.calls.append(("unary", self.obj(self.meta(a[0]), a[2], "unaryOp", loc), pystr(I, a[1])))
        return self.call("v_int", 4711)

    def h_left(self, I, this, a, loc):
        self.calls.append(("left", self.obj(self.meta(a[0]), a[2], "binaryOp", loc), pystr(I, a[1]), Val(I, a[3])))
        return self.call("v_int", 4711)

    def h_right(self, I, this, a, loc):
        self.calls.append(("right", self.obj(self.meta(a[0]), a[3], "binaryOp", loc), pystr(I, a[1]), Val(I, a[2])))
        return self.call("v_int", 4711)

    def call(self, n, *args):
        f = self.fn(n)
        return self.I.invoke(f, None, [x if isinstance(x, Cell) else Cell(x, q["t"].noref()) for x, q in zip(args, f["ps"])], None)

    def tok(self, v):
        """Object token of a user-defined value."""
        d = self.I.read(v.val.get("data"))
        return d.c.v

    # ---- operands
    def operand(self, k, small=False):
        """(cell of a Value, payload) for an operand kind."""
        st, I = self.st, self.I
        if k == "undef":
            return self.call("v_undef"), None
        if k == "null":
            return self.call("v_null"), None
        if k == "bool":
            b = st.choose(2, "bool")
            return self.call("v_bool", b), b
        if k == "int":
            s = st.sym("i", *((-(1 << 30), 1 << 30) if small else I64))
            return self.call("v_int", s), s
        if k == "float":
            s = st.sym("f", None, None, real=True)
            return self.call("v_float", s), s
        if isinstance(k, tuple) and k[0] in ("int", "float"):
            v = k[1]
            if v in ("nan", "inf", "-inf"):
                v = FSpecial(v)
            return self.call("v_" + k[0], v), v
        if isinstance(k, tuple) and k[0] == "string":
            n = k[1]
            t = T.const(n) if isinstance(n, bytes) else T.Text([("c", TF(st.newcs(), tuple(range(256)))) for _ in range(n)])
            so = lib.StrObj()
            so.set(t)
            return self.call("v_string", so), t
        if k == "strref":
            so = lib.StrObj()
            so.set(T.const(b"ab"))
            self.keep = Cell(so)
            return self.call("v_strref", lib.SvObj(so.t, so)), so.t
        if k in ("object", "array"):
            self.nodekind = k
            return self.call("v_node"), None
        if k == "range":
            a, b = st.sym("a", *I64), st.sym("b", *I64)
            return self.call("v_range", a, b), (a, b)
        if isinstance(k, tuple) and k[0] == "range":
            return self.call("v_range", k[1], k[2]), k[1:]
        if k == "re":
            so = lib.StrObj()
            so.set(T.const(b"a"))
            self.keepre = Cell(so)
            return self.call("v_re", lib.SvObj(so.t, so)), T.const(b"a")
        if k in ("user0", "user1"):
            return self.call("v_user", 1 if k == "user1" else 0), None
        raise Unsupported("operand %r" % (k,))

    def strty(self):
        return self.fn("v_string")["ps"][0]["t"]

    def svty(self):
        return self.fn("v_strref")["ps"][0]["t"]


def base(k):
    k = k[0] if isinstance(k, tuple) else k
    return "string" if k == "strref" else k


def show(k):
    return k if isinstance(k, str) else "%s(%s)" % (k[0], ",".join(str(x) for x in k[1:]))


# ---------------------------------------------------------------- outcomes
def outcome(W, op, cells):
    """('value', Val) or ('error', type, message)"""
    try:
        return ("value", Val(W.I, W.call(op, *cells)))
    except CxxThrow as e:
        v = e.v
        n = v.n if isinstance(v, LibExc) else (v.rid if isinstance(v, Rec) else str(e.t))
        w = None
        if isinstance(v, LibExc) and v.what is not None:
            try:
                w = pystr(W.I, v.what)
            except Exception:
                w = None
        return ("error", n, w, e.loc)


def opsite(p, op):
    """Where the operator is implemented (for reports)."""
    f = p.byname.get("drive::" + op)
    cls = None
    for n in walkcalls(f[0]) if f else ():
        if "OperatorDispatcher<" in n:
            cls = n.split("<")[1].split(">")[0]
    return "include/simfil/operator.h: %s" % (cls or op)


def walkcalls(f):
    st = [f.get("body")]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            fn = x.get("fn")
            if isinstance(fn, dict) and "n" in fn:
                yield fn["n"]
            st.extend(v for v in x.values() if isinstance(v, (dict, list)))
        elif isinstance(x, list):
            st.extend(x)


def desc(r):
    return r[1].kind if r[0] == "value" else "an error"


def exact_eq(st, a, b):
    """True / False / None (not decided by the domain) without forking."""
    if isinstance(a, FSpecial) or isinstance(b, FSpecial):
        x = getattr(a, "n", None) if isinstance(a, FSpecial) else "v"
        y = getattr(b, "n", None) if isinstance(b, FSpecial) else "v"
        if "x/0" in (x, y):
            return None
        return x == y
    d = st.simp(st.sub(a, b))
    if isnum(d):
        return d == 0
    if isinstance(d, TF):
        xs = {d.tab[i] for i in bits(st.dom[d.s])}
        return True if xs == {0} else (None if 0 in xs or None in xs else False)
    for m in d.d:
        for x, e in m:
            if not isinstance(st.atoms[x], IS):
                return None     # opaque function: not decided here
            if st.atoms[x].def_ is not None:
                return None
    lo, hi = st.bounds(d)
    if (lo is not None and lo > 0) or (hi is not None and hi < 0):
        return False
    # a nonzero polynomial over free symbols
    for m in d.d:
        for x, e in m:
            l, h = st.iv[st.atoms[x]]
            if l is not None and h is not None and h - l < 1000:
                return None
    if st.facts:
        return None
    return False


SCALARS = ["undef", "null", "bool", "int", "float", ("string", 1), "strref", "object", "array"]


def numeric(k):
    return base(k) in ("int", "float")


def fold_expected(op, ka, kb):
    """Set of acceptable outcome kinds for an arithmetic operator."""
    a, b = base(ka), base(kb)
    if "undef" in (a, b):
        return {"undef"}
    if "null" in (a, b):
        if op == "add" and "string" in (a, b):
            return {"null", "string"}
        return {"null"}
    if op in ("add", "sub", "mul", "div") and numeric(ka) and numeric(kb):
        return {"int"} if a == b == "int" else {"float"}
    if op in ("mod", "bit_and", "bit_or", "bit_xor", "shl", "shr") and a == b == "int":
        return {"int"}
    if op == "add":
        m = ("object", "array")
        if a == "string" and b in ("bool", "int", "float", "string") or b == "string" and a in ("bool", "int", "float"):
            return {"string"}
        if a == "string" and b in m or b == "string" and a in m or a in m and b in m:
            return {"null", "error"}
    if op == "subscript" and a == "string" and b == "int":
        return {"string", "null"}
    return {"error"}


UNEXP = {
    "negate": {"int": {"int"}, "float": {"float"}, "null": {"null", "error"}},
    "bitinv": {"int": {"int"}, "null": {"null"}},
    "len": {"string": {"int"}, "object": {"int"}, "array": {"int"}, "null": {"null"}},
    "boolean": {k: {"bool"} for k in ("null", "bool", "int", "float", "string", "object", "array")},
    "lnot": {k: {"bool"} for k in ("null", "bool", "int", "float", "string", "object", "array")},
    "type_of": {k: {"string"} for k in ("null", "bool", "int", "float", "string", "object", "array")},
    "asint": {k: {"int"} for k in ("null", "bool", "int", "float", "string", "object", "array")},
    "asfloat": {k: {"float"} for k in ("null", "bool", "int", "float", "string", "object", "array")},
    "asstring": {k: {"string"} for k in ("null", "bool", "int", "float", "string", "object", "array")},
}


def check_error(p, op, r, sym, kinds):
    if r[1] not in ("std::runtime_error",):
        if r[1].endswith("InvalidOperandsError"):
            raise Fail(opsite(p, op), "the error for operand kinds %s is not reported as a runtime error" % " and ".join(kinds))
        raise Fail(opsite(p, op), "operand kinds %s raise %s" % (" and ".join(kinds), r[1]))
    if r[2] is not None and "Division" not in r[2] and not (" operator " + sym) in r[2] and sym not in r[2].split():
        raise Fail(opsite(p, op), "the type error for operand kinds %s does not name the operator" % " and ".join(kinds), {"message": r[2]})


def b_o02(p, op, ks):
    """Kind of the result for abstract operands."""
    sym = UNARY[op[2:]] if op[0] == "u" else BINOPS[op[2:]]

    def body(I, st):
        W = World(p, I, st)
        vs = [W.operand(k) for k in ks]
        r = outcome(W, op, [v[0] for v in vs])
        kinds = [base(k) for k in ks]
        if op[0] == "u":
            exp = {"undef"} if kinds[0] == "undef" else UNEXP[op[2:]].get(kinds[0], {"error"})
        elif op[2:] in CMP:
            exp = {"undef"} if "undef" in kinds else {"bool"}
        else:
            exp = fold_expected(op[2:], *ks)
        got = "error" if r[0] == "error" else r[1].kind
        ex = {"operator": sym, "operands": [show(k) for k in ks], "result": got}
        if got == "error" and r[2] is not None and "ivision" in r[2] and op[2:] in ("div", "mod"):
            z = vs[1][1]
            if base(ks[1]) in ("int", "float") and exact_eq(st, z, 0) is False:
                raise Fail(opsite(p, op), "division by zero is reported for a divisor that is not zero", ex)
            return {"n": 1}
        if got not in exp:
            raise Fail(opsite(p, op), "%s applied to %s yields %s instead of %s" % (sym, " and ".join(kinds), "a %s" % got if got != "error" else "an error",
                                                                                 " or ".join(sorted(exp))), ex, r[3] if r[0] == "error" and r[3] else None)
        if got == "error":
            check_error(p, op, r, sym, kinds)
        elif not r[1].consistent():
            raise Fail(opsite(p, op), "%s yields a value tagged %s that holds %s" % (sym, r[1].kind, r[1].altkind()), ex)
        return {"n": 1}
    return body


def text_fail(st, a, b):
    """Texts definitely differ (no fork)."""
    if T.same(st, T.norm(st, a.segs), T.norm(st, b.segs)):
        return False
    la, lb = T.length(st, a), T.length(st, b)
    if isnum(la) and isnum(lb):
        if la != lb:
            return True
        for i in range(la):
            x, y = T.at(st, a, i), T.at(st, b, i)
            if exact_eq(st, x, y) is False:
                return True
        return any(exact_eq(st, T.at(st, a, i), T.at(st, b, i)) is None for i in range(la)) and "maybe"
    return "maybe"


def scalar_text(I, k, v):
    """Documented string form of a scalar, None when it is not constant."""
    if base(k) == "string":
        return v
    if base(k) == "bool":
        return T.const(b"true" if v else b"false")
    if base(k) == "int" and isnum(v):
        return T.const(str(v).encode())
    if base(k) == "null":
        return T.const(b"null")
    return None


def expect_num(p, st, op, r, kind, exp, ex, ub=None):
    if r[0] == "error":
        raise Fail(opsite(p, op), "%s raises an error" % ex["expr"], ex, r[3])
    v = r[1]
    if v.kind != kind:
        raise Fail(opsite(p, op), "%s yields %s instead of %s" % (ex["expr"], v.kind, kind), ex)
    e = exact_eq(st, v.val, exp)
    if e is False:
        raise Fail(opsite(p, op), "%s does not yield the %s" % (BINOPS.get(op[2:], UNARY.get(op[2:])), ex["want"]), dict(ex, got=str(v.val), expected=str(exp)))
    return e


def w64(x):
    x &= (1 << 64) - 1
    return x - (1 << 64) if x >> 63 else x


def trdiv(a, b):
    q = abs(a) // abs(b)
    return -q if (a < 0) != (b < 0) else q


CORNERS = [I64[0], I64[0] + 1, -(1 << 53) - 1, -65, -64, -63, -2, -1, 0, 1, 2, 7, 31, 32, 33, 62, 63, 64, 65, (1 << 32), (1 << 53) + 1, I64[1] - 1, I64[1]]
FCORNERS = [Fraction(-3, 2), -1, Fraction(-1, 2), 0, Fraction(1, 2), 1, Fraction(3, 2), 2, 7, 1 << 62, 1 << 63, -(1 << 63), 1 << 64, 10 ** 300, -(10 ** 300),
            "nan", "inf", "-inf"]


def int_expected(op, a, b):
    """Value of an integer operation or 'error'; None: not specified."""
    if op == "add":
        r = a + b
    elif op == "sub":
        r = a - b
    elif op == "mul":
        r = a * b
    elif op == "div":
        if b == 0:
            return "error"
        r = trdiv(a, b)
    elif op == "mod":
        if b == 0:
            return "error"
        r = a - trdiv(a, b) * b
    elif op == "bit_and":
        r = a & b
    elif op == "bit_or":
        r = a | b
    elif op == "bit_xor":
        r = a ^ b
    elif op == "shl":
        r = w64(a << b) if 0 <= b < 64 else None
    elif op == "shr":
        r = None if not 0 <= b < 64 else w64((a & ((1 << 64) - 1)) >> b) if a >= 0 else None
    if r is not None and not I64[0] <= r <= I64[1]:
        return None       # overflow: any defined result
    return r


def b_o03_corner(p, op, a, bs):
    def body(I, st):
        W = World(p, I, st)
        b = bs[st.choose(len(bs), "b")]
        ks = [("int", a), ("int", b)]
        r = outcome(W, "b_" + op, [W.operand(k)[0] for k in ks])
        ex = {"expr": "%d %s %d" % (a, ARITH[op], b), "want": "integer result"}
        e = int_expected(op, a, b)
        if e == "error":
            if r[0] != "error":
                raise Fail(opsite(p, "b_" + op), "division or modulo by zero is not reported as an error", ex)
            if r[1] != "std::runtime_error":
                raise Fail(opsite(p, "b_" + op), "division or modulo by zero raises %s" % r[1], ex)
        elif r[0] == "error":
            raise Fail(opsite(p, "b_" + op), "%s raises an error although the divisor is not zero" % ARITH[op], ex)
        elif e is not None:
            expect_num(p, st, "b_" + op, r, "int", e, ex)
        elif r[1].kind != "int" or not isnum(r[1].val) or not I64[0] <= r[1].val <= I64[1]:
            if r[1].kind != "int":
                raise Fail(opsite(p, "b_" + op), "%s on two integers yields %s" % (ARITH[op], r[1].kind), ex)
        return {"n": 1}
    return body


def b_o03_abs(p, op, ka, kb):
    """All operand values at once: freedom from undefined behaviour, errors only for a zero divisor."""
    def body(I, st):
        W = World(p, I, st)
        va, vb = W.operand(ka), W.operand(kb)
        r = outcome(W, "b_" + op, [va[0], vb[0]])
        ex = {"expr": "%s %s %s" % (show(ka), ARITH[op], show(kb)), "want": "documented result"}
        if r[0] == "error":
            if op not in ("div", "mod") or exact_eq(st, vb[1], 0) is False:
                raise Fail(opsite(p, "b_" + op), "%s raises an error for numbers" % ARITH[op], ex, r[3])
            return {"n": 1}
        if op in ("div", "mod") and exact_eq(st, vb[1], 0) is True:
            raise Fail(opsite(p, "b_" + op), "division or modulo by zero is not reported as an error", ex)
        if isinstance(r[1].val, FSpecial) and r[1].val.n == "x/0":
            raise Fail(opsite(p, "b_" + op), "division or modulo by zero is not reported as an error", ex)
        return {"n": 1}
    return body


def b_o03_small(p, op, ka, kb):
    """Operands for which nothing overflows: the exact result as a polynomial of the operands."""
    def body(I, st):
        W = World(p, I, st)
        va, vb = W.operand(ka, small=True), W.operand(kb, small=True)
        r = outcome(W, "b_" + op, [va[0], vb[0]])
        kind = "int" if base(ka) == base(kb) == "int" else "float"
        f = {"add": st.add, "sub": st.sub, "mul": st.mul}[op]
        expect_num(p, st, "b_" + op, r, kind, f(va[1], vb[1]),
                   {"expr": "%s %s %s" % (show(ka), ARITH[op], show(kb)), "want": {"add": "sum", "sub": "difference", "mul": "product"}[op]})
        return {"n": 1}
    return body


def b_o03_unary(p, op, k):
    def body(I, st):
        W = World(p, I, st)
        v = W.operand(k)
        r = outcome(W, "u_" + op, [v[0]])
        ex = {"expr": "%s %s" % (UNARY[op], show(k)), "want": "documented result"}
        if r[0] == "error":
            raise Fail(opsite(p, "u_" + op), "%s raises an error for a number" % UNARY[op], ex, r[3])
        x = v[1]
        if op == "negate":
            if base(k) == "float" or isnum(x) and x != I64[0]:
                expect_num(p, st, "u_" + op, r, base(k), FSpecial({"inf": "-inf", "-inf": "inf"}.get(x.n, x.n)) if isinstance(x, FSpecial) else st.neg(x), ex)
        elif op == "bitinv" and isnum(x):
            expect_num(p, st, "u_" + op, r, "int", -x - 1, ex)
        return {"n": 1}
    return body


def b_o03_cast(p, op, k):
    def body(I, st):
        W = World(p, I, st)
        v = W.operand(k)
        r = outcome(W, "u_" + op, [v[0]])
        x = v[1]
        ex = {"expr": "%s as %s" % (show(k), UNARY[op]), "want": "converted value"}
        if r[0] == "error":
            raise Fail(opsite(p, "u_" + op), "a cast of a number raises an error", ex, r[3])
        if op == "asfloat":
            expect_num(p, st, "u_" + op, r, "float", x, ex)
        elif base(k) == "int":
            expect_num(p, st, "u_" + op, r, "int", x, ex)
        elif isnum(x) and I64[0] <= x <= I64[1]:
            expect_num(p, st, "u_" + op, r, "int", int(x), ex)
        elif isinstance(x, FSpecial) or isnum(x):
            expect_num(p, st, "u_" + op, r, "int", 0, ex)
        elif r[1].kind != "int":
            raise Fail(opsite(p, "u_" + op), "a cast to int yields %s" % r[1].kind, ex)
        return {"n": 1}
    return body


# ---------------------------------------------------------------- O01
def cmp_all(W, va, vb, p):
    out = {}
    for op in CMP:
        r = outcome(W, "b_" + op, [va[0], vb[0]])
        if r[0] == "error":
            raise Fail(opsite(p, "b_" + op), "comparing %s and %s raises an error" % (W.names[0], W.names[1]), None, r[3])
        if r[1].kind != "bool":
            raise Fail(opsite(p, "b_" + op), "comparing %s and %s yields %s" % (W.names[0], W.names[1], r[1].kind))
        v = r[1].val
        out[op] = W.I.st.truth(v, "result") if not isnum(v) else bool(v)
    return out


def b_o01(p, ka, kb, opaque_ok=True):
    def body(I, st):
        W = World(p, I, st)
        W.names = (base(ka), base(kb))
        va, vb = W.operand(ka), W.operand(kb)
        x = cmp_all(W, va, vb, p)
        y = {}
        for op in ("lt", "lteq", "gt", "gteq", "eq", "neq"):
            r = outcome(W, "b_" + op, [vb[0], va[0]])
            if r[0] == "error" or r[1].kind != "bool":
                raise Fail(opsite(p, "b_" + op), "comparing %s and %s yields %s" % (base(kb), base(ka), desc(r)))
            v = r[1].val
            y[op] = st.truth(v, "result") if not isnum(v) else bool(v)
        opq = any(not isinstance(st.atoms[a], (IS, TF)) for a in st.atoms if not isinstance(st.atoms[a], (CS,)))
        ex = {"operands": [show(ka), show(kb)], "results": {CMP[k]: v for k, v in x.items()}, "swapped": {CMP[k]: v for k, v in y.items()}}
        what = None
        if x["neq"] == x["eq"]:
            what = ("neq", "a != b is not the negation of a == b")
        elif x["gt"] != y["lt"]:
            what = ("gt", "a > b differs from b < a")
        elif x["gteq"] != y["lteq"]:
            what = ("gteq", "a >= b differs from b <= a")
        elif x["eq"] != y["eq"]:
            what = ("eq", "a == b differs from b == a")
        elif x["lt"] and x["gt"]:
            what = ("lt", "a < b and a > b hold at the same time")
        elif x["lt"] and x["eq"]:
            what = ("lt", "a < b and a == b hold at the same time")
        elif x["lt"] and not x["lteq"]:
            what = ("lteq", "a < b holds but a <= b does not")
        elif x["gt"] and not x["gteq"]:
            what = ("gteq", "a > b holds but a >= b does not")
        elif x["lteq"] and not (x["lt"] or x["eq"]):
            what = ("lteq", "a <= b holds although neither a < b nor a == b")
        a, b = base(ka), base(kb)
        comparable = numeric(ka) and numeric(kb) or a == b == "string" or a == b == "null"
        if what is None and comparable and x["eq"] and not (x["lteq"] and x["gteq"]):
            what = ("lteq", "a == b holds but a <= b or a >= b does not")
        nan = any(isinstance(v[1], FSpecial) and v[1].n == "nan" for v in (va, vb))
        if what is None and (numeric(ka) and numeric(kb) or a == b == "string") and not nan and not (x["lt"] or x["eq"] or x["gt"]):
            what = ("lt", "none of a < b, a == b, a > b holds for comparable operands")
        if what is None:
            want = None
            if numeric(ka) and numeric(kb):
                if nan:
                    want = {"eq": False, "lt": False}
                elif not isinstance(va[1], FSpecial) and not isinstance(vb[1], FSpecial):
                    want = {"eq": st.cmp("==", va[1], vb[1]), "lt": st.cmp("<", va[1], vb[1])}
                else:
                    k = fspecial_cmp(st, va[1], vb[1])
                    want = {"eq": k == 0, "lt": k < 0}
            elif a == b == "string":
                k = T.cmp3(st, va[1], vb[1])
                want = {"eq": st.cmp("==", k, 0), "lt": st.cmp("<", k, 0)}
            elif a == b == "bool":
                want = {"eq": va[1] == vb[1]}
            elif a == b == "null":
                want = {"eq": True, "lt": False}
            elif a != b and {a, b} != {"object", "array"}:
                # operands of unrelated kinds: unequal, every order comparison is false
                want = {"eq": False, "lt": False, "lteq": False, "gt": False, "gteq": False}
            for k, v in (want or {}).items():
                if x[k] != v:
                    unrel = a != b and not (numeric(ka) and numeric(kb))
                    what = (k, "a %s b is %s for operands of unrelated kinds" % (CMP[k], str(x[k]).lower()) if unrel
                            else "a %s b does not compare %s" % (CMP[k], "numerically" if numeric(ka) else "by value"))
                    break
        if what:
            if not st.feasible():
                return {"n": 1}
            if opq:
                raise Unsupported("comparison through an opaque function")
            raise Fail(opsite(p, "b_" + what[0]), "%s (%s, %s)" % (what[1], a, b), ex)
        return {"n": 1}
    return body


# ---------------------------------------------------------------- O04
TYPENAME = {"null": "null", "bool": "bool", "int": "int", "float": "float", "string": "string", "object": "model", "array": "model", "range": "irange",
            "re": "re"}


def b_o04(p, op, k):
    def body(I, st):
        W = World(p, I, st)
        v = W.operand(k)
        r = outcome(W, "u_" + op, [v[0]])
        b = base(k)
        ex = {"operand": show(k)}
        want = {"asint": "int", "asfloat": "float", "asstring": "string", "type_of": "string", "boolean": "bool"}[op]
        name = {"asint": "a cast to int", "asfloat": "a cast to float", "asstring": "a cast to string", "type_of": "typeof", "boolean": "?"}[op]
        if r[0] == "error":
            if b in ("range", "re") and op in ("asint", "asfloat"):
                return {"n": 1}
            raise Fail(opsite(p, "u_" + op), "%s of a %s raises an error" % (name, b), ex, r[3])
        r = r[1]
        if r.kind != want or not r.consistent():
            raise Fail(opsite(p, "u_" + op), "%s of a %s yields a value tagged %s holding %s" % (name, b, r.kind, r.altkind()), ex)
        x = v[1]
        if op == "type_of":
            s = pystr(I, text(I, r.val)) if not isinstance(r.val, T.Text) else None
            s = pystr(I, r.cell)
            if s is not None and s != TYPENAME[b]:
                raise Fail(opsite(p, "u_" + op), "typeof a %s is '%s' instead of '%s'" % (b, s, TYPENAME[b]), ex)
        if op == "boolean":
            e = {"null": 0, "bool": x}.get(b, 1)
            g = st.simp(r.val)
            if isnum(g) and bool(g) != bool(e):
                raise Fail(opsite(p, "u_" + op), "the boolean value of %s is %s" % (show(k) if b == "bool" else "a " + b, bool(g)), ex)
        if op == "asint" and b in ("null", "bool", "object", "array"):
            if exact_eq(st, r.val, int(bool(x)) if b == "bool" else 0) is False:
                raise Fail(opsite(p, "u_" + op), "a cast of a %s to int yields the wrong number" % b, ex)
        if op == "asfloat" and b in ("null", "bool", "object", "array"):
            if exact_eq(st, r.val, int(bool(x)) if b == "bool" else 0) is False:
                raise Fail(opsite(p, "u_" + op), "a cast of a %s to float yields the wrong number" % b, ex)
        if op == "asstring":
            e = scalar_text(I, k, x)
            if b == "range" and isnum(x[0]):
                e = T.const(("%d..%d" % x).encode())
            if e is not None and text_fail(st, text(I, r.cell), e) is True:
                raise Fail(opsite(p, "u_" + op), "a cast of a %s to string yields another text" % b, dict(ex, got=str(pystr(I, r.cell))))
        return {"n": 1}
    return body


# ---------------------------------------------------------------- O05
def b_o05_user(p, op, ks):
    sym = UNARY[op[2:]] if op[0] == "u" else BINOPS[op[2:]]

    def body(I, st):
        W = World(p, I, st)
        vs = [W.operand(k) for k in ks]
        ids = [Val(I, v[0]) for v in vs]
        und = any(k == "undef" for k in ks)
        r = outcome(W, op, [v[0] for v in vs])
        ex = {"operator": sym, "operands": [show(k) for k in ks]}
        S = "include/simfil/operator.h: %s" % ("simfil::UnaryOperatorDispatcher" if op[0] == "u" else "simfil::BinaryOperatorDispatcher")
        if und:
            if r[0] == "error" or r[1].kind != "undef":
                raise Fail(S, "an unknown operand and a user-defined value do not yield unknown", ex)
            return {"n": 1}
        if r[0] == "error":
            raise Fail(S, "an operator on a user-defined value raises an error instead of asking its type", ex, r[3])
        if len(W.calls) != 1:
            raise Fail(S, "an operator on a user-defined value asks its type %d times" % len(W.calls), ex)
        c = W.calls[0]
        if c[2] is not None and c[2] != sym:
            raise Fail(S, "a user-defined type is asked for operator '%s' instead of '%s'" % (c[2], sym), ex)
        if exact_eq(st, r[1].val, 4711) is not True or r[1].kind != "int":
            raise Fail(S, "the result of a user-defined operator is not what its type returned", ex)
        if op[0] == "u":
            if c[1] is not None and c[1].meta is not W.tok(ids[0]).meta:
                raise Fail(S, "the operator is dispatched to another type", ex)
        if op[0] == "b":
            pos = 0 if c[0] == "left" else 1
            if not ks[pos].startswith("user"):
                raise Fail(S, "a user-defined type receives its operands in the wrong order", ex)
            if c[1].meta is not W.tok(ids[pos]).meta:
                raise Fail(S, "the operator is dispatched to the type of the other operand", ex)
            o = c[3]
            if o.kind != ids[1 - pos].kind or o.kind == "int" and exact_eq(st, o.val, vs[1 - pos][1]) is False:
                raise Fail(S, "a user-defined type receives another operand than the one given", ex)
        return {"n": 1}
    return body


def b_o05_range(p, ka, kb, both=False):
    """Range membership with either operand order."""
    def body(I, st):
        W = World(p, I, st)
        va, vb = W.operand(ka), W.operand(kb)
        rng, x, k = (va[1], vb[1], kb) if base(ka) == "range" else (vb[1], va[1], ka)
        r = outcome(W, "b_eq", [va[0], vb[0]])
        n = outcome(W, "b_neq", [va[0], vb[0]])
        S = "src/types.cpp: simfil::IRangeType::binaryOp"
        ex = {"operands": [show(ka), show(kb)]}
        res = []
        for q in (r, n):
            if q[0] == "error" or q[1].kind != "bool":
                raise Fail(S, "comparing a range with a %s yields %s" % (base(k), desc(q)), ex)
            v = st.simp(q[1].val)
            res.append(bool(v) if isnum(v) else st.truth(v))
        if not st.feasible():
            return {"n": 1}
        if res[0] == res[1]:
            raise Fail(S, "!= of a range is not the negation of ==", ex)
        if base(k) in ("int", "float"):
            a, b = rng
            if isinstance(x, FSpecial):
                want = False
            else:
                le = lambda u, v: st.cmp("<=", u, v)
                want = (le(a, x) and le(x, b)) or (le(b, x) and le(x, a))
        elif base(k) == "range":
            return {"n": 1}
        else:
            want = False
        if st.feasible() and res[0] != want:
            raise Fail(S, "a range %s a %s that is %s it" % ("contains" if res[0] else "does not contain", base(k), "inside" if want else "outside"),
                       ex)
        return {"n": 1}
    return body


def b_o05_re(p, side, k):
    def body(I, st):
        W = World(p, I, st)
        seen = []

        def hook(I, a, loc):
            n = loc["fn"]["n"].split("::")[-1]
            if len(a) < 2 or not lib.isstr(lib.val(a[0])):
                raise Unsupported("regex call form")
            c = st.choose(2, "match")
            seen.append((n, text(I, a[0]), c))
            return c
        I.regexhook = hook
        so = lib.StrObj()
        so.set(T.const(b"a.*"))
        re = W.call("v_re", lib.SvObj(so.t, so))
        v = W.operand(k)
        args = [re, v[0]] if side == 0 else [v[0], re]
        S = "src/types.cpp: simfil::ReType::binaryOp"
        ex = {"operands": ["re", show(k)] if side == 0 else [show(k), "re"]}
        b = base(k)
        for op in ("eq", "neq"):
            del seen[:]
            r = outcome(W, "b_" + op, args)
            if b == "undef":
                if r[0] == "error" or r[1].kind != "undef":
                    raise Fail(S, "an unknown operand compared with a regular expression does not yield unknown", ex)
                continue
            if r[0] == "error":
                raise Fail(S, "comparing a regular expression with a %s raises an error" % b, ex, r[3])
            if b == "string":
                if len(seen) == 0:
                    raise Fail(S, "comparing a regular expression with a string does not match it", ex)
                for n, t, c in seen:
                    if n != "regex_match":
                        raise Fail(S, "the regular expression is searched in the string instead of matched against it", ex)
                    if text_fail(st, t, v[1]) is True:
                        raise Fail(S, "the regular expression is matched against another text", ex)
                m = seen[-1][2]
                if any(c != m for _, _, c in seen):
                    return {"n": 1}
                truth = bool(m) == (op == "eq")
                q = r[1]
                tv = q.kind == "string" or (q.kind == "bool" and bool(st.simp(q.val)))
                if tv != truth:
                    raise Fail(S, "%s of a regular expression and a %smatching string is %s" % (CMP["eq" if op == "eq" else "neq"], "" if m else "non-",
                                                                                              "true" if tv else "false"), ex)
                if q.kind == "string" and text_fail(st, text(I, q.cell), v[1]) is True:
                    raise Fail(S, "a regular expression match yields another text than the string", ex)
            elif b != "null":
                q = r[1]
                if q.kind != "bool" or bool(st.simp(q.val)) != (op == "neq"):
                    raise Fail(S, "a regular expression and a %s are not simply unequal" % b, ex)
        return {"n": 1}
    return body


def jobs_for(pid, p, tier):
    J = []
    deep = tier == "thorough"
    if pid == "O02":
        ks = SCALARS + [("float", "nan"), ("float", "inf")]
        for op in BINOPS:
            for a in SCALARS:
                for b in SCALARS:
                    J.append(("b_%s %s %s" % (op, show(a), show(b)), b_o02(p, "b_" + op, [a, b])))
            for u in ("range", "re", "user0"):
                for ks in (["undef", u], [u, "undef"]):
                    J.append(("b_%s %s %s" % (op, show(ks[0]), show(ks[1])), b_o02(p, "b_" + op, ks)))
        for op in UNEXP:
            for a in SCALARS:
                J.append(("u_%s %s" % (op, show(a)), b_o02(p, "u_" + op, [a])))
    if pid == "O03":
        for op in ("add", "sub", "mul", "div", "mod", "bit_and", "bit_or", "bit_xor", "shl", "shr"):
            J.append(("all values: int %s int" % ARITH[op], b_o03_abs(p, op, "int", "int")))
            for a in CORNERS:
                J.append(("corners %d %s" % (a, ARITH[op]), b_o03_corner(p, op, a, CORNERS)))
                if deep:
                    J.append(("int corner", b_o03_abs(p, op, ("int", a), "int")))
                    J.append(("int corner", b_o03_abs(p, op, "int", ("int", a))))
        for op in ("add", "sub", "mul"):
            for a, b in (("int", "int"), ("int", "float"), ("float", "int"), ("float", "float")):
                J.append(("exact: %s %s %s" % (a, ARITH[op], b), b_o03_small(p, op, a, b)))
        for op in ("add", "sub", "mul", "div"):
            for a, b in (("int", "float"), ("float", "int"), ("float", "float")):
                J.append(("all values: %s %s %s" % (a, ARITH[op], b), b_o03_abs(p, op, a, b)))
        for z in (("int", 0), ("float", 0)):
            for a in ("int", "float"):
                J.append(("zero divisor", b_o03_abs(p, "div", a, z)))
        for k in ["int", "float"] + [("int", c) for c in CORNERS] + [("float", c) for c in FCORNERS]:
            J.append(("- " + show(k), b_o03_unary(p, "negate", k)))
            if base(k) == "int":
                J.append(("~ " + show(k), b_o03_unary(p, "bitinv", k)))
            for op in ("asint", "asfloat"):
                J.append(("%s as %s" % (show(k), UNARY[op]), b_o03_cast(p, op, k)))
    if pid == "O01":
        ks = ["null", "bool", "int", "float", ("string", 0), ("string", 1), ("string", 2), "strref", "object", "array"]
        for a in ks:
            for b in ks:
                J.append(("%s ? %s" % (show(a), show(b)), b_o01(p, a, b)))
        for a in (-2, -1, 0, 1, 2, 7, 1 << 32, 1 << 52):
            for b in FCORNERS:
                J.append(("%s ? %s" % (a, b), b_o01(p, ("int", a), ("float", b))))
                J.append(("%s ? %s" % (b, a), b_o01(p, ("float", b), ("int", a))))
        for a in CORNERS:
            for b in CORNERS:
                J.append(("%s ? %s" % (a, b), b_o01(p, ("int", a), ("int", b))))
        for a in FCORNERS:
            for b in FCORNERS:
                J.append(("%s ? %s" % (a, b), b_o01(p, ("float", a), ("float", b))))
            J.append(("int ? %s" % b, b_o01(p, "int", ("float", a))))
        for a in (b"", b"a", b"B", b"1", b"abc", b"true", b"null"):
            for b in ks:
                J.append(("text", b_o01(p, ("string", a), b)))
                J.append(("text", b_o01(p, b, ("string", a))))
    if pid == "O04":
        ks = ["null", "bool", "int", "float", ("string", 0), ("string", 1), ("string", 2), "strref", "object", "array", ("range", 1, 5), "range", "re",
              ("float", "nan"), ("float", "inf")] + [("int", c) for c in CORNERS] + [("float", c) for c in FCORNERS if not isinstance(c, str)]
        for op in ("asint", "asfloat", "asstring", "type_of", "boolean"):
            for k in ks:
                J.append(("%s %s" % (UNARY[op], show(k)), b_o04(p, op, k)))
    if pid == "O05":
        us = ["user0", "user1"]
        others = ["undef", "null", "bool", "int", "float", ("string", 1), "object", "array"]
        for op in BINOPS:
            for u in us:
                for o in others + us:
                    J.append(("b_%s" % op, b_o05_user(p, "b_" + op, [u, o])))
                    J.append(("b_%s" % op, b_o05_user(p, "b_" + op, [o, u])))
        for op in UNEXP:
            for u in us:
                J.append(("u_%s" % op, b_o05_user(p, "u_" + op, [u])))
        for k in ["int", "float", ("float", "nan"), "null", "bool", ("string", 1), "object", ("range", 1, 2)]:
            for r in ("range", ("range", 1, 5), ("range", 5, 1), ("range", 3, 3), ("range", -2, 2)):
                J.append(("range", b_o05_range(p, r, k)))
                J.append(("range", b_o05_range(p, k, r)))
        for r in (("range", 1, 5), ("range", 5, 1), ("range", 3, 3)):
            for x in (0, 1, 2, 3, 5, 6):
                for f in (x, x + Fraction(1, 2)):
                    k = ("int", x) if f == x else ("float", f)
                    J.append(("range", b_o05_range(p, r, k)))
                    J.append(("range", b_o05_range(p, k, r)))
        for k in ["undef", "null", "bool", "int", "float", ("string", 0), ("string", 1), ("string", b"abc"), "strref", "object", "array"]:
            for side in (0, 1):
                J.append(("re", b_o05_re(p, side, k)))
    return J


EXPL = {
    "O01": "all six comparison operators applied to the same abstract operands, in both orders, for every pair of operand kinds (abstract integers, "
           "floats, strings up to two characters, plus boundary values, infinities and NaN); the results must be consistent with each other and with the order of the numbers",
    "O02": "every binary and unary operator for every combination of operand kinds with abstract payloads: kind of the result against the table of the language guide",
    "O03": "every integer operation with abstract operands over the whole int64 range: no path reaches undefined behaviour; boundary values give the exact "
           "result; results without overflow are compared as polynomials of the operands; casts between numbers at their limits",
    "O04": "every cast, typeof and ? for every operand kind: kind tag, payload and documented value",
    "O05": "operators with a user-defined operand of two unknown types on either side: exactly one call, of the operand's own type, with operator and operands in "
           "order; range membership with abstract limits and numbers; regular expressions with a matching and a non-matching string",
}


def check(pid, tier):
    p = prog.load([os.path.join(prog.REPO, s) for s in SOURCES] + [DRV + "/values.cpp"], [DRV + "/"])
    if "drive::b_eq" not in p.byname:
        raise AnalysisBroken("driver not loaded")
    deadline = time.time() + (500 if tier == "quick" else 800)
    J = jobs_for(pid, p, tier)

    def group(js):
        tot = Out()
        per = []
        for name, body in js:
            o = explore(p, body, max_paths=3000, deadline=deadline)
            per.append((name, o.paths, o.done))
            tot.merge(o)
        return tot, per
    n = 16
    rs = parallel(group, [J[i::n] for i in range(n)])
    res = Result()
    tot = Out()
    per = []
    for o, q in rs:
        tot.merge(o)
        per += q
    for (w, what, d, l) in tot.fails:
        res.add(w, what, d, l)
    if not tot.done:
        raise AnalysisBroken("no path could be decided: %s" % list(tot.unsupported)[:3])
    res.coverage = {
        "explanation": EXPL[pid], "summary": "%d scenarios, %d paths, %d decided" % (len(J), tot.paths, tot.done),
        "scenarios": len(J), "paths": tot.paths, "paths_decided": tot.done, "inconclusive": tot.unsupported,
        "functions": sorted({p.funcs[i]["n"] for i in tot.covered if i in p.funcs and p.funcs[i]["f"].startswith(prog.REPO)}),
        "samples": [x[0] for x in per[:8]],
    }
    res.assumptions = ["floating-point arithmetic is treated as exact (rounding is not modelled)",
                       "the standard library behaves as its modelled specification"]
    return res
