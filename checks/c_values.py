"""V01, V02: life cycle of user-defined values in every history of copies, moves and assignments; kind tags against payloads."""
import os
import time
from engine import prog, lib, text as T
from engine.dom import *
from engine.interp import *
from .core import Result, AnalysisBroken
from .explore import *
from .c_ops import World, Val, VT, SOURCES, DRV, I64, exact_eq, pystr

HT = "include/simfil/transient.h: simfil::TransientObject"


class Life(World):
    """World that follows the identity of every user-defined object."""

    def __init__(self, p, I, st):
        World.__init__(self, p, I, st)
        I.heap = []

    def token(self, meta):
        p = World.token(self, meta)
        p.c.v.root = p.c.v.no
        return p

    def h_copy(self, I, this, a, loc):
        m = self.meta(a[0])
        o = self.obj(m, a[1], "copy", loc)
        if getattr(self, "copythrows", False) and self.st.choose(2, "copy throws") == 1:
            I.throw("std::bad_alloc", "", loc)
        r = self.token(m)
        r.c.v.root = o.root
        return r


class Slot:
    def __init__(self, ptr, state, value):
        self.ptr, self.state, self.value = ptr, state, value


class History:
    def __init__(self, W, value):
        self.W, self.value = W, value
        self.pre = "w_" if value else "h_"
        self.slots = []
        self.log = []

    def rec(self, s):
        """TransientObject record of a holder (None: a value of another kind)."""
        r = s.ptr.c.v
        if not self.value:
            return r
        v = r.get("value").v
        c = v.c.v
        return c if isinstance(c, Rec) else None

    def read(self, s):
        """Token held by the slot; None when it holds none."""
        r = self.rec(s)
        if r is None:
            return None
        I = self.W.I
        d, m = I.read(r.get("data")), I.read(r.get("meta"))
        if not isinstance(d, Ptr):
            return None
        if not isinstance(m, Ptr):
            self.bad("a holder keeps an object without its type")
        return d.c.v, m.c.v

    def bad(self, what):
        raise Fail(HT, what, {"history": "; ".join(self.log)})

    def new(self, which):
        if which == "int":
            self.log.append("%d = int value" % len(self.slots))
            self.slots.append(Slot(self.W.call("w_int"), ("int",), True))
            return
        self.log.append("%d = new object of type %s" % (len(self.slots), "AB"[which]))
        self.slots.append(Slot(self.W.call(self.pre + "new", which), ("val", None), self.value))
        s = self.slots[-1]
        t = self.read(s)
        if t is None:
            self.bad("a new holder has no object")
        s.state = ("val", t[0].root)

    def op(self, k, i, j=None):
        W = self.W
        a = self.slots[i]
        if k in ("copy", "move"):
            self.log.append("%d = %s of %d" % (len(self.slots), k, i))
            try:
                p = W.call(self.pre + k, a.ptr)
            except CxxThrow:
                return
            self.slots.append(Slot(p, a.state, self.value))
            if k == "move" and a.state[0] == "val":
                a.state = ("any",)
            return
        b = self.slots[j]
        self.log.append("%d = %s%d" % (i, "move of " if k == "massign" else "", j))
        try:
            W.call(self.pre + k, a.ptr, b.ptr)
        except CxxThrow:
            self.log[-1] += " (copy fails)"
            a.state = ("any",)
            return
        st = b.state
        if k == "massign" and b.state[0] == "val":
            b.state = ("any",)
        if i != j or k == "assign":
            a.state = st

    def check(self):
        owners = {}
        for n, s in enumerate(self.slots):
            if s.ptr is None:
                continue
            r = self.read(s)
            if r is None:
                if s.state[0] == "val":
                    self.bad("a holder lost its object")
                continue
            t, m = r
            if not t.alive:
                self.bad("a holder refers to a destroyed object")
            if t.meta is not m:
                self.bad("a holder has an object of another type")
            if id(t) in owners:
                self.bad("two holders own the same object")
            owners[id(t)] = n
            if s.state[0] == "val" and t.root != s.state[1]:
                self.bad("a holder has an object other than the one assigned")
            if s.state[0] == "int":
                self.bad("a value of another kind holds an object")

    def end(self, order):
        for n in order(list(range(len(self.slots)))):
            s = self.slots[n]
            self.log.append("delete %d" % n)
            self.W.call(self.pre + "del", s.ptr)
            s.ptr = None
            self.check()
        for o in self.W.objs:
            if o.alive:
                self.bad("an object is never destroyed")


def ops(n):
    r = []
    for i in range(n):
        r += [("copy", i), ("move", i)]
        for j in range(n):
            r += [("assign", i, j), ("massign", i, j)]
    return r


def b_history(p, value, init, first, more, throws):
    def body(I, st):
        W = Life(p, I, st)
        H = History(W, value)
        for x in init:
            if x == "moved":
                H.new(0)
                H.op("move", len(H.slots) - 1)
            else:
                H.new(x)
        H.check()
        W.copythrows = throws
        o = first
        for k in range(more + 1):
            H.op(*o)
            H.check()
            if k < more:
                c = ops(len(H.slots))
                o = c[st.choose(len(c), "operation")]
        H.end((lambda l: l) if st.choose(2, "order") == 0 else (lambda l: l[::-1]))
    return body


def b_unwind(p, value, which):
    def body(I, st):
        W = Life(p, I, st)
        H = History(W, value)
        H.new(which)
        H.log.append("a function copies 0, moves 0 and raises an error")
        try:
            W.call(H.pre + "throw", H.slots[0].ptr)
        except CxxThrow:
            H.slots[0].state = ("any",)
        H.check()
        H.end(lambda l: l)
    return body


def b_typed(p, kind, seq):
    """Histories of the built-in user-defined types; objects are followed through new and delete."""
    def body(I, st):
        W = Life(p, I, st)

        def new():
            if kind == "range":
                return W.call("w_range", 1, 5)
            so = lib.StrObj()
            so.set(T.const(b"a"))
            W.keep2 = Cell(so)
            return W.call("w_re", lib.SvObj(so.t, so))
        log = []
        slots = [new(), new()]
        for o in seq:
            log.append(" ".join(str(x) for x in o))
            if o[0] in ("copy", "move"):
                slots.append(W.call("w_" + o[0], slots[o[1]]))
            elif o[0] in ("assign", "massign", "same"):
                W.call("w_" + o[0], slots[o[1]], slots[o[2]])
            elif o[0] == "unpack":
                W.call("w_unpack", slots[o[1]], o[2])
            elif o[0] == "str":
                W.call("w_str", slots[o[1]])
        for s in slots:
            W.call("w_del", s)
        for c, w, t in I.heap:
            if not c.dead and w is not None and "Error" not in str(getattr(t, "n", "")):
                raise Fail(w, "an object created here is never destroyed", {"history": "; ".join(log)})
    return body


# ---------------------------------------------------------------- V02
VH = "include/simfil/value.h: simfil::Value"


class Tags(World):
    def __init__(self, p, I, st):
        World.__init__(self, p, I, st)
        self.seen = []
        I.hooks["probe::visited"] = lambda I, this, a, loc: self.seen.append(VTV[st.simp(lib.rd(I, a[0]))])
        for n in ("bool", "int", "float", "object"):
            I.hooks["probe::payload_" + n] = lambda I, this, a, loc: self.seen.append(lib.rd(I, a[0]))
        I.hooks["probe::payload_string"] = lambda I, this, a, loc: self.seen.append(lib.as_text(I, a[0]))
        I.hooks["probe::scalar"] = lambda I, this, a, loc: self.call(*self.scal)
        self.scal = ("s_none",)

    def sstr(self, n=None, tag="s"):
        if n is None:
            n = (0, 2, 17, 40)[self.st.choose(4, "length")]
        t = T.Text([("c", TF(self.st.newcs(), tuple(range(256)))) for _ in range(n)])
        so = lib.StrObj()
        so.set(t)
        setattr(self, "keep_" + tag, Cell(so))
        return so


VTV = ["undef", "null", "bool", "int", "float", "string", "transient", "node"]

# factory -> (kind tag, payload kind)
FACT = {
    "v_undef": ("undef", None), "v_default_null": ("null", None), "v_t": ("bool", 1), "v_f": ("bool", 0), "v_model": ("object", None),
    "v_bool": ("bool", "bool"), "v_lbool": ("bool", "bool"), "v_int": ("int", "int"), "v_lint": ("int", "int"), "v_kind_int": ("int", "int"),
    "v_float": ("float", "float"), "v_ldouble": ("float", "float"), "v_string": ("string", "string"), "v_clref": ("string", "string"),
    "v_strref": ("string", "view"), "v_sview": ("string", "view"), "v_user": ("transient", "object"), "v_transient": ("transient", "copy"),
}
SCAL = {"s_none": ("null", None), "s_bool": ("bool", "bool"), "s_int": ("int", "int"), "s_float": ("float", "float"), "s_string": ("string", "string"),
        "s_strref": ("string", "view")}


def payload(W, pk):
    """(arguments, expected payload)"""
    st = W.st
    if pk is None or pk in (0, 1):
        return [], pk
    if pk == "bool":
        b = st.choose(2, "bool")
        return [b], b
    if pk == "int":
        s = st.sym("i", *I64)
        return [s], s
    if pk == "float":
        s = st.sym("f", None, None, real=True)
        return [s], s
    if pk == "string":
        so = W.sstr()
        return [Cell(so)], so.t
    if pk == "view":
        so = W.sstr()
        return [lib.SvObj(so.t, so)], so.t
    if pk == "object":
        return [st.choose(2, "type")], None
    if pk == "copy":
        return [W.call("h_new", st.choose(2, "type"))], None
    raise Unsupported(pk)


def eqpay(W, got, exp):
    """False when the payloads certainly differ."""
    if exp is None:
        return True
    if isinstance(exp, T.Text):
        t = lib.as_text(W.I, got) if not isinstance(got, T.Text) else got
        a, b = T.norm(W.st, t.segs).segs, T.norm(W.st, exp.segs).segs
        return T.same(W.st, T.Text(list(a)), T.Text(list(b))) if hasattr(T, "same") else [repr(x) for x in a] == [repr(x) for x in b]
    return exact_eq(W.st, got, exp)


def expect_value(W, where, c, kind, exp, what):
    v = Val(W.I, c)
    if v.kind != kind:
        raise Fail(where, "%s has kind %s instead of %s" % (what, v.kind, kind))
    if not v.consistent():
        raise Fail(where, "%s has kind %s but a payload of kind %s" % (what, v.kind, v.altkind()))
    if exp is not None and eqpay(W, v.val, exp) is False:
        raise Fail(where, "%s does not hold the given payload" % what, {"got": str(v.val), "expected": str(exp)})
    return v


def read_all(W, c, kind, exp, what, node=False):
    """Every way of reading the value agrees with its kind."""
    I = W.I
    for k in range(len(VT)):
        r = W.st.simp(lib.rd(I, W.call("x_isa", c, k)))
        if r != (1 if VT[k] == kind else 0):
            raise Fail(VH, "isa(%s) is wrong for %s" % (VT[k], what))
    W.seen.clear()
    W.call("x_visit", c)
    want = {"object": "node" if node else "null", "array": "node" if node else "null"}.get(kind, kind)
    if not W.seen or W.seen[0] != want:
        raise Fail(VH + "::visit", "visiting %s reaches the overload for %s" % (what, W.seen[0] if W.seen else None))
    if want in ("bool", "int", "float", "string") and eqpay(W, W.seen[1], exp) is False:
        raise Fail(VH + "::visit", "visiting %s passes another payload" % what)
    if kind in ("bool", "int", "float", "string") and exp is not None:
        r = W.call("x_as" + kind, c)
        if eqpay(W, lib.rd(I, r) if kind != "string" else r, exp) is False:
            raise Fail(VH + "::as", "as<%s> of %s yields another payload" % (kind, what))
    for b in (0, 1):
        r = W.st.simp(lib.rd(I, W.call("x_isbool", c, b)))
        if isnum(r) and (kind != "bool" or isnum(exp)) and r != (1 if kind == "bool" and exp == b else 0):
            raise Fail(VH + "::isBool", "isBool is wrong for %s" % what)
    for fn, ty in (("x_getint", "int"), ("x_getfloat", "float")):
        out = Cell(0, W.fn(fn)["ps"][1]["t"].noref())
        if fn == "x_getint" and kind == "float":
            continue
        r = W.st.simp(lib.rd(I, W.call(fn, c, out)))
        if r != (1 if kind in ("int", "float") else 0):
            raise Fail("include/simfil/value.h: simfil::getNumeric", "getNumeric answers %s for %s" % (bool(r), what))
        if kind == ty and eqpay(W, out.v, exp) is False:
            raise Fail("include/simfil/value.h: simfil::getNumeric", "getNumeric of %s yields another number" % what)
    r = W.st.simp(I.read(Cell(W.call("x_sview", c))))


def b_factory(p, fn):
    kind, pk = FACT[fn]

    def body(I, st):
        W = Tags(p, I, st)
        args, exp = payload(W, pk)
        c = W.call(fn, *args)
        c = c if isinstance(c, Cell) else Cell(c)
        v = expect_value(W, VH, c, kind, exp, "a value made from %s" % (pk if isinstance(pk, str) else fn[2:]))
        read_all(W, c, kind, exp, "a %s value" % kind)
        # copies keep tag and payload
        for how in ("w_copy", "w_move"):
            q = W.call(how, Ptr(c))
            expect_value(W, VH, q.c, kind, exp, "a %s of a %s value" % (how[2:], kind))
            W.call("w_del", q)
    return body


def b_scalar(p, fn):
    kind, pk = SCAL[fn]

    def body(I, st):
        W = Tags(p, I, st)
        args, exp = payload(W, pk)
        s = W.call(fn, *args)
        c = Cell(W.call("v_scalar", s))
        expect_value(W, VH, c, kind, exp, "a value made from a %s scalar" % kind)
        read_all(W, c, kind, exp, "a value made from a %s scalar" % kind)
        r = W.call("x_scalar", c)
        r = r.v if isinstance(r, Cell) else r
        if r.idx != ["s_none", "s_bool", "s_int", "s_float", "s_string", "s_strref"].index(fn):
            raise Fail(VH + "::getScalar", "getScalar of a %s value yields another alternative" % kind)
        if exp is not None and eqpay(W, r.c.v, exp) is False:
            raise Fail(VH + "::getScalar", "getScalar of a %s value yields another payload" % kind)
        # nodes holding the scalar
        for how in ("n_valuenode_type", "n_type"):
            t = W.st.simp(lib.rd(I, W.call(how, Cell(W.call(fn, *again(W, args))))))
            if VT[t] != kind:
                raise Fail("src/model/nodes.cpp: simfil::ValueNode::type", "a node holding a %s answers type %s" % (kind, VT[t]))
        r = W.call("n_valuenode_value", Cell(W.call(fn, *again(W, args))))
        r = r.v if isinstance(r, Cell) else r
        if exp is not None and eqpay(W, r.c.v, exp) is False:
            raise Fail("src/model/nodes.cpp: simfil::ValueNode", "a node holding a %s answers another value" % kind)
    return body


def again(W, args):
    out = []
    for a in args:
        if isinstance(a, Cell) and isinstance(a.v, lib.StrObj):
            so = lib.StrObj()
            so.set(a.v.t)
            out.append(Cell(so))
        else:
            out.append(a)
    return out


def b_field(p, fn, sc, nodekind):
    kind, pk = SCAL[sc] if sc else (nodekind, None)

    def body(I, st):
        W = Tags(p, I, st)
        args, exp = payload(W, pk)
        W.nodekind = nodekind or kind
        W.scal = (sc, *args) if sc else ("s_none",)
        c = Cell(W.call(fn))
        expect_value(W, VH + "::field", c, nodekind or kind, exp, "a value made from a %s node" % (nodekind or kind))
        read_all(W, c, nodekind or kind, exp, "a value made from a %s node" % (nodekind or kind), node=True)
    return body


def b_assign(p, a, b, how):
    """Assigning a value of kind b to one of kind a leaves exactly b."""
    def body(I, st):
        W = Tags(p, I, st)
        x = Cell(W.call(a, *payload(W, FACT[a][1])[0]))
        args, exp = payload(W, FACT[b][1])
        y = Cell(W.call(b, *args))
        W.call(how, Ptr(x), Ptr(y))
        expect_value(W, VH, x, FACT[b][0], exp, "a %s value after assigning a %s value" % (FACT[a][0], FACT[b][0]))
        if how == "w_assign":
            expect_value(W, VH, y, FACT[b][0], exp, "a %s value after being assigned from" % FACT[b][0])
    return body


def b_names(p):
    def body(I, st):
        W = Tags(p, I, st)
        for k, n in enumerate(VT):
            s = pystr(I, W.call("x_typename", k))
            if s is not None and s != n:
                raise Fail("include/simfil/value.h: simfil::valueType2String", "kind %s is called '%s'" % (n, s))
    return body


def b_tostring(p, fn, want):
    def body(I, st):
        W = Tags(p, I, st)
        c = Cell(W.call(fn))
        s = pystr(I, W.call("x_tostring", c))
        if s is not None and s != want:
            raise Fail(VH + "::toString", "a %s value is written as '%s'" % (want, s))
    return body


def jobs_v01(p, tier):
    J = []
    deep = tier == "thorough"
    for value in (False, True):
        for w in (0, 1):
            J.append(("error", b_unwind(p, value, w)))
        inits = [(a, b) for a in (0, 1, "moved") for b in (0, 1, "moved")]
        if value:
            inits += [(0, "int"), ("int", 1)]
        for init in inits:
            n = sum(2 if x == "moved" else 1 for x in init)
            for o in ops(n):
                J.append(("history", b_history(p, value, init, o, 2 if deep and not value and init == (0, 1) else 1, False)))
                if o[0] in ("copy", "assign"):
                    J.append(("failing copy", b_history(p, value, init, o, 1 if deep else 0, True)))
    seqs = [[], [("copy", 0), ("same", 0, 2)], [("move", 0), ("copy", 2), ("copy", 0)], [("assign", 0, 1), ("same", 0, 1), ("str", 0)],
            [("massign", 0, 1), ("copy", 1), ("massign", 1, 0), ("str", 1)], [("assign", 0, 0), ("same", 0, 0)], [("massign", 0, 0)],
            [("move", 1), ("assign", 1, 0), ("same", 0, 1)], [("move", 0), ("assign", 1, 0), ("massign", 1, 2), ("str", 1)]]
    for kind in ("range", "re"):
        for s in seqs:
            J.append((kind, b_typed(p, kind, s)))
    for k in (1, 2, 9):
        J.append(("unpack", b_typed(p, "range", [("unpack", 0, k), ("same", 0, 1)])))
    return J


def jobs_v02(p, tier):
    J = [("names", b_names(p))]
    for fn in FACT:
        J.append((fn, b_factory(p, fn)))
    for fn in SCAL:
        J.append((fn, b_scalar(p, fn)))
        for f in ("v_field_ptr", "v_field_ref"):
            J.append((f, b_field(p, f, fn, None)))
    for f in ("v_field_ptr", "v_field_ref"):
        for k in ("object", "array"):
            J.append((f, b_field(p, f, None, k)))
    for a in FACT:
        for b in FACT:
            for how in ("w_assign", "w_massign"):
                J.append(("%s %s" % (a, b), b_assign(p, a, b, how)))
    for fn, w in (("v_undef", "undef"), ("v_default_null", "null"), ("v_t", "true"), ("v_f", "false")):
        J.append(("toString", b_tostring(p, fn, w)))
    return J


def check(pid, tier):
    p = prog.load([os.path.join(prog.REPO, s) for s in SOURCES] + [DRV + "/values.cpp"], [DRV + "/"])
    deadline = time.time() + (500 if tier == "quick" else 800)
    J = (jobs_v01 if pid == "V01" else jobs_v02)(p, tier)
    return run(p, pid, J, deadline, EXPL[pid])


EXPL = {
    "V01": "every history of up to %s of new, copy, move, assign and move-assign (including self-assignment, moved-from operands, values of another kind "
           "and failing copies) over holders and values of two user-defined types; the identity of every object is followed to its destruction" % "four operations",
    "V02": "every factory, constructor and assignment between all kinds with abstract payloads: kind tag against the stored alternative and payload; every reader (isa, as, "
           "visit, isBool, getScalar, getNumeric) against the tag; values made from nodes of every kind",
}


def run(p, pid, J, deadline, expl, n=16, max_paths=3000):
    def group(js):
        tot = Out()
        for name, body in js:
            tot.merge(explore(p, body, max_paths=max_paths, deadline=deadline))
        return tot
    res = Result()
    tot = Out()
    for o in parallel(group, [J[i::n] for i in range(n)]):
        tot.merge(o)
    for (w, what, d, l) in tot.fails:
        res.add(w, what, d, l)
    if not tot.done:
        raise AnalysisBroken("no path could be decided: %s" % list(tot.unsupported)[:3])
    res.coverage = {
        "explanation": expl, "summary": "%d scenarios, %d paths, %d decided" % (len(J), tot.paths, tot.done),
        "scenarios": len(J), "paths": tot.paths, "paths_decided": tot.done, "inconclusive": tot.unsupported,
        "functions": sorted({p.funcs[i]["n"] for i in tot.covered if i in p.funcs and p.funcs[i]["f"].startswith(prog.REPO)}),
    }
    res.assumptions = ["the standard library behaves as its modelled specification"]
    res.data = tot.data
    return res
