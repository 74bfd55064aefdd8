"""E01-E05, E07, X02: evaluation of every kind of expression against its denotation.

Expressions are built by the library's own compile(); their operands are functions whose values the analysis chooses (every
sequence over an alphabet of value kinds), the consumer's answers are chosen too. The values delivered are compared with the
list the language defines."""
import os
import time
from engine import prog, lib, text as T
from engine.dom import *
from engine.interp import *
from .core import Result, AnalysisBroken
from .explore import *
from .c_ops import Val, VT, DRV, pystr

UNITS = ["simfil", "parser", "token", "function", "environment", "overlay", "value", "types", "exception-handler",
         "model/nodes", "model/model", "model/string-pool"]
COMP, EVAL = 0, 1
STOP, CONT = 0, 1
UNDEF, NULLV, TRUE, FALSE = ("undef",), ("null",), ("bool", 1), ("bool", 0)
NAMES = ["a", "b"]


def load():
    return prog.load([os.path.join(prog.REPO, "src", s + ".cpp") for s in UNITS] + [DRV + "/exprs.cpp"], [DRV + "/"])


# ------------------------------------------------------------------ expressions

SRC = "pqrs"


def text_of(e):
    k = e[0]
    if k == "src":
        return SRC[e[1]] + "()"
    if k == "const":
        return e[2]
    if k in ("and", "or"):
        return "(%s) %s (%s)" % (text_of(e[1]), k, text_of(e[2]))
    if k == "bin":
        return "(%s) %s (%s)" % (text_of(e[2]), e[1], text_of(e[3]))
    if k == "un":
        return "%s (%s)" % (e[1], text_of(e[2]))
    if k == "bool":
        return "(%s)?" % text_of(e[1])
    if k == "path":
        r = text_of(e[2])
        return "(%s).%s" % (text_of(e[1]), r if e[2][0] in ("src", "field", "child", "wild", "self", "call") else "(%s)" % r)
    if k == "sub":
        return "(%s){%s}" % (text_of(e[1]), text_of(e[2]))
    if k == "idx":
        return "(%s)[%s]" % (text_of(e[1]), text_of(e[2]))
    if k == "unpack":
        return "(%s)..." % text_of(e[1])
    if k == "as":
        return "(%s) as %s" % (text_of(e[2]), e[1])
    if k == "child":
        return "*"
    if k == "wild":
        return "**"
    if k == "self":
        return "_"
    if k == "field":
        return e[1]
    if k == "call":
        return "%s(%s)" % (e[1], ", ".join(text_of(a) for a in e[2:]))
    raise AssertionError(k)


P, Q, R, S = (("src", i) for i in range(4))


def call(n, *a):
    return ("call", n) + a


def i(n):
    return ("const", ("int", n), str(n))


def s(t):
    return ("const", ("str", t), "'%s'" % t)


class OpError(Exception):
    pass


# ------------------------------------------------------------------ world

class EW:
    """Hooks of one path."""

    def __init__(self, p, I, st):
        self.p, self.I, self.st = p, I, st
        self.memo = {}
        self.mode = {}       # source -> unknown | known | mixed | raw
        self.seqs = {}       # source -> list of sequences to choose from
        self.shape = None    # node id -> (kind, payload, children)
        self.kinds = {}
        self.out = []
        self.answers = []
        self.stops = True
        self.phase = EVAL
        self.active = []
        self.evals = []      # (source, input, values)
        self.dbg = []
        self.keys = {}
        h = I.hooks
        h["probe::next"] = self.h_next
        h["probe::answered"] = self.h_answered
        h["probe::deliver"] = self.h_deliver
        h["probe::kind"] = lambda I, t, a, l: VT.index(self.node(self.num(a[0]))[0])
        h["probe::count"] = lambda I, t, a, l: len(self.node(self.num(a[0]))[2])
        h["probe::child"] = self.h_child
        h["probe::child_named"] = self.h_named
        h["probe::key"] = self.h_key
        h["probe::scalar"] = self.h_scalar
        h["probe::eval_begin"] = lambda I, t, a, l: self.dbg.append(("b", id(lib.rd(I, a[0]).c)))
        h["probe::eval_end"] = lambda I, t, a, l: self.dbg.append(("e", id(lib.rd(I, a[0]).c)))

    def num(self, a):
        return self.I.concrete(lib.rd(self.I, a), "number")

    def call(self, n, *args):
        f = self.p.byname.get("drive::" + n)
        if not f:
            raise AnalysisBroken("driver function %s is missing" % n)
        f = f[0]
        return self.I.invoke(f, None, [x if isinstance(x, Cell) else Cell(x, q["t"].noref()) for x, q in zip(args, f["ps"])], None)

    # ---- values
    def make(self, v):
        k = v[0]
        if k in ("undef", "null"):
            c = self.call("v_" + k)
        elif k == "str":
            c = self.call("v_string", strcell(v[1]))
        elif k == "re":
            c = self.call("v_re", strcell(v[1]))
        elif k == "view":
            t = T.const(v[1].encode("latin-1"))
            c = self.call("v_view", Cell(lib.SvObj(t, lib.StrObj(t))))
        elif k == "range":
            c = self.call("v_range", v[1], v[2])
        elif k == "node":
            c = self.call("v_node", self.model, v[1])
        else:
            c = self.call("v_" + k, v[1])
        return c if isinstance(c, Cell) else Cell(c)

    def describe(self, c):
        """The value as a tuple."""
        n = self.num(Cell(self.call("n_id", c)))
        if n >= 0:
            return ("node", n)
        v = Val(self.I, c)
        if not v.consistent():
            raise Fail("include/simfil/value.h: simfil::Value", "a value with a kind tag other than its payload is delivered", {"expression": self.scene.text})
        if v.kind in ("undef", "null"):
            return (v.kind,)
        if v.kind == "bool":
            return ("bool", 1 if self.I.concrete(v.val, "bool") else 0)
        if v.kind == "int":
            return ("int", self.I.concrete(v.val, "int"))
        if v.kind == "float":
            return ("float", v.val if isinstance(v.val, float) else self.I.concrete(v.val, "float"))
        if v.kind == "string":
            return ("str", pystr(self.I, v.val))
        if v.kind == "transient":
            if self.call("v_is_range", c):
                return ("range", self.num(Cell(self.call("v_range_begin", c))), self.num(Cell(self.call("v_range_end", c))))
            return ("re",) if self.call("v_is_re", c) else ("obj",)
        return (v.kind,)

    # ---- sources
    def seq(self, src, val, phase):
        m = self.mode.get(src, "unknown")
        if m == "known":
            return self.pick((src,), src)
        if m == "raw":
            return self.pick((src, val, phase), src)
        if m == "mixed":
            k = ("known prefix", src)
            if k not in self.memo:
                o = self.seqs[src]
                pre = sorted({tuple(x[:n]) for x in o for n in range(len(x))})
                self.memo[k] = list(pre[self.st.choose(len(pre), "known values of %s" % SRC[src])])
            pre = self.memo[k]
            if phase == COMP:
                return pre + [UNDEF]
            if (src, val) not in self.memo:
                o = [x for x in self.seqs[src] if x[:len(pre)] == pre]
                self.memo[(src, val)] = list(o[self.st.choose(len(o), "values of %s" % SRC[src])])
            return self.memo[(src, val)]
        return [UNDEF] if phase == COMP else self.pick((src, val), src)

    def pick(self, k, src):
        if k not in self.memo:
            o = self.seqs[src]
            self.memo[k] = list(o[self.st.choose(len(o), "values of %s" % SRC[src])])
        return self.memo[k]

    def h_next(self, I, this, a, loc):
        src, phase = self.num(a[0]), self.num(a[1])
        if not self.active or self.active[-1][0] != src:
            val = self.describe(a[2])
            vs = self.seq(src, val, phase)
            self.active.append([src, iter(vs)])
            self.evals.append((src, val, phase))
        try:
            v = next(self.active[-1][1])
        except StopIteration:
            self.active.pop()
            return NULL
        return Ptr(self.make(v))

    def h_answered(self, I, this, a, loc):
        src, r = self.num(a[0]), self.num(a[1])
        while self.active and self.active[-1][0] != src:
            self.active.pop()
        if r == STOP and self.active:
            self.active.pop()
        if r not in (STOP, CONT):
            raise Fail(self.where(), "an expression answers neither continue nor stop", self.detail())

    def h_deliver(self, I, this, a, loc):
        v = self.describe(a[0])
        if self.answers and self.answers[-1] == STOP:
            raise Fail(self.where(), "a value is delivered after the consumer answered stop", self.detail())
        if self.num(a[1]) != self.phase:
            raise Fail(self.where(), "a value is delivered under another phase than that of the evaluation", self.detail())
        self.out.append(v)
        if len(self.out) > 40:
            raise Fail(self.where(), "more values are delivered than the expression has", self.detail())
        r = CONT
        if self.stops:
            r = CONT if self.st.choose(2, "consumer answers stop") == 0 else STOP
        self.answers.append(r)
        return r

    # ---- nodes
    def node(self, n):
        return self.shape[n]

    def h_child(self, I, this, a, loc):
        c = self.node(self.num(a[0]))[2]
        k = self.num(a[1])
        if self.stops and self.answers and self.answers[-1] == STOP:
            raise Fail(self.where(), "an element of the model is visited after the consumer answered stop", self.detail())
        return c[k] if 0 <= k < len(c) else -1

    def h_named(self, I, this, a, loc):
        n = self.node(self.num(a[0]))
        k = self.num(a[1])
        for j, c in enumerate(n[2]):
            if n[0] == "object" and self.keys.get(NAMES[j]) == k:
                return c
        return -1

    def h_key(self, I, this, a, loc):
        n = self.node(self.num(a[0]))
        k = self.num(a[1])
        return self.keys[NAMES[k]] if n[0] == "object" and 0 <= k < len(n[2]) else 0

    def h_scalar(self, I, this, a, loc):
        k, v, _ = self.node(self.num(a[0]))
        if k == "bool":
            return self.call("s_bool", v)
        if k == "int":
            return self.call("s_int", v)
        if k == "string":
            return self.call("s_string", strcell(v))
        return self.call("s_none")

    # ---- reporting
    def where(self):
        for fr in reversed(self.I.frames):
            f = fr.fn
            if f.get("f", "").startswith(prog.REPO) and "::ResultFn" not in f["n"] and "LambdaResultFn" not in f["n"]:
                return "%s: %s" % (f["f"].replace(prog.REPO.rstrip("/") + "/", ""), f["n"].split("::(anonymous")[0])
        return self.scene.where

    def detail(self):
        d = {"expression": self.scene.text, "delivered": show(self.out), "phase": "evaluation" if self.phase else "compilation"}
        for k, v in self.memo.items():
            if k[0] in (0, 1, 2, 3):
                d["%s%s" % (SRC[k[0]], " on %s" % show(k[1:2]) if len(k) > 1 else "")] = show(v)
        if self.answers and self.answers[-1] == STOP:
            d["stop"] = "after value %d" % len(self.answers)
        return d


def show(vs):
    return " ".join(":".join(str(x) for x in v) for v in vs)


def strcell(b):
    o = lib.StrObj()
    o.set(T.const(b.encode("latin-1")))
    return Cell(o)


class Scene:
    """One expression, compiled once; the paths of its scenarios share it."""

    def __init__(self, p, e, any=False, wild=False, text=None, debug=False):
        self.p, self.e, self.any, self.wild, self.debug = p, e, any, wild, debug
        self.text = text or text_of(e)
        self.where = "src/simfil.cpp: simfil::eval"
        self.base = None
        self.ok = True

    def attach(self, I, st):
        """World of a path over the shared compiled expression (operands unknown at compile time)."""
        if self.base is None or not self.ok:
            s0 = State([])
            J = Interp(self.p, s0)
            J.max_iter = 1000
            W = EW(self.p, J, s0)
            W.scene = self
            W.seqs = {k: [[UNDEF]] for k in range(4)}
            W.mode = {k: "unknown" for k in range(4)}
            self.env = J_env = W.call("env_new")
            self.keys = {n: W.num(Cell(W.call("env_emplace", J_env, strcell(n)))) for n in NAMES}
            self.model = W.call("model_new")
            W.model = self.model
            self.x = W.call("env_compile", J_env, Cell(lib.SvObj(T.const(self.text.encode()))), self.any, self.wild)
            if self.debug:
                W.call("env_debug", J_env)
            self.base = J
        self.ok = False
        I.statics = self.base.statics
        I.max_iter = 1000
        W = EW(self.p, I, st)
        W.scene, W.keys, W.model, W.env, W.x = self, self.keys, self.model, self.env, self.x
        return W

    def fresh(self, I, st, setup):
        """World of a path that compiles the expression itself."""
        I.max_iter = 1000
        W = EW(self.p, I, st)
        W.scene = self
        W.env = W.call("env_new")
        W.keys = {n: W.num(Cell(W.call("env_emplace", W.env, strcell(n)))) for n in NAMES}
        W.model = W.call("model_new")
        setup(W)
        W.phase = COMP
        W.stops = False
        W.x = W.call("env_compile", W.env, Cell(lib.SvObj(T.const(self.text.encode()))), self.any, self.wild)
        W.phase = EVAL
        W.stops = True
        W.out, W.answers, W.evals, W.active = [], [], [], []
        return W


# ------------------------------------------------------------------ denotation

ADD = ("bin", "+", ("field", "$sum"), ("field", "$val"))


class Ref:
    """The list of values the language defines for an expression."""

    def __init__(self, W, phase):
        self.W, self.phase = W, phase

    def kind(self, v):
        return self.W.node(v[1])[0] if v[0] == "node" else {"str": "string"}.get(v[0], v[0])

    def plain(self, v):
        """Payload of the value of a scalar node."""
        if v[0] != "node":
            return v
        k, x, _ = self.W.node(v[1])
        if k == "null":
            return NULLV
        if k in ("bool", "int"):
            return (k, x)
        if k == "string":
            return ("str", x)
        return (k,)

    def truth(self, v):
        v = self.plain(v)
        if v == UNDEF:
            return None
        if v == NULLV:
            return False
        if v[0] == "bool":
            return bool(v[1])
        return True

    def none(self):
        return [UNDEF] if self.phase == COMP else [NULLV]

    def empty(self, v):
        return v == NULLV

    def ev(self, e, val):
        return getattr(self, "r_" + e[0])(e, val)

    def r_src(self, e, val):
        r = self.W.seq(e[1], val, self.phase)
        return r if r else [NULLV]

    def r_const(self, e, val):
        return [e[1]]

    def r_and(self, e, val):
        out = []
        for l in self.ev(e[1], val):
            t = self.truth(l)
            out += [UNDEF] if t is None else self.ev(e[2], val) if t else [l]
        return out

    def r_or(self, e, val):
        out = []
        for l in self.ev(e[1], val):
            t = self.truth(l)
            out += [UNDEF] if t is None else [l] if t else self.ev(e[2], val)
        return out

    def r_bin(self, e, val):
        return [self.op2(e[1], l, r) for l in self.ev(e[2], val) for r in self.ev(e[3], val)]

    def r_un(self, e, val):
        return [self.op1(e[1], v) for v in self.ev(e[2], val)]

    def r_bool(self, e, val):
        return [self.op1("?", v) for v in self.ev(e[1], val)]

    def op1(self, op, v):
        if v == UNDEF:
            return UNDEF
        t = self.truth(v)
        if op == "?":
            return ("bool", int(t))
        if op == "not":
            if self.plain(v)[0] in ("range", "re"):
                raise OpError()
            return ("bool", int(not t))
        if op == "typeof":
            k = self.kind(v)
            return ("str", {"object": "model", "array": "model"}.get(k, k))
        v = self.plain(v)
        if op == "-" and v == NULLV:
            raise OpError()
        if op == "-" and v[0] == "int":
            return ("int", -v[1])
        if op == "#" and v[0] == "str":
            return ("int", len(v[1]))
        if v == NULLV:
            return NULLV
        raise OpError()

    def op2(self, op, l, r):
        if l == UNDEF or r == UNDEF:
            return UNDEF
        l, r = self.plain(l), self.plain(r)
        if op == "+":
            if l[0] == "int" and r[0] == "int":
                return ("int", l[1] + r[1])
            if NULLV in (l, r):
                return NULLV
        if op == "*" and l[0] == "int" and r[0] == "int":
            return ("int", l[1] * r[1])
        if op in ("==", "!=") and l[0] in ("int", "str", "bool", "null") and r[0] in ("int", "str", "bool", "null"):
            return ("bool", int((l == r) == (op == "==")))
        if op == "<" and l[0] == "int" and r[0] == "int":
            return ("bool", int(l[1] < r[1]))
        raise OpError()

    def r_path(self, e, val):
        out = []
        for v in self.ev(e[1], val):
            if v == UNDEF:
                out.append(UNDEF)
            elif not self.empty(v):
                out += [w for w in self.ev(e[2], v) if not self.empty(w)]
        return out or self.none()

    def r_sub(self, e, val):
        out = []
        for l in self.ev(e[1], val):
            for c in self.ev(e[2], l):
                t = self.truth(c)
                if t is None:
                    if self.phase == COMP:
                        out.append(UNDEF)
                elif t:
                    out.append(l)
        return out or self.none()

    def r_idx(self, e, val):
        out = []
        for l in self.ev(e[1], val):
            for x in self.ev(e[2], val):
                if x == UNDEF:
                    out.append(UNDEF)
                elif l[0] == "node":
                    x = self.plain(x)
                    k, _, ch = self.W.node(l[1])
                    if x[0] == "int" and 0 <= x[1] < len(ch):
                        out.append(("node", ch[x[1]]))
                    elif x[0] == "str" and k == "object" and x[1] in NAMES[:len(ch)]:
                        out.append(("node", ch[NAMES.index(x[1])]))
                elif l == UNDEF:
                    out.append(UNDEF)
                elif l[0] == "str" and self.plain(x)[0] == "int":
                    x = self.plain(x)
                    out.append(("str", l[1][x[1]]) if 0 <= x[1] < len(l[1]) else NULLV)
                elif l == NULLV or self.plain(x) == NULLV:
                    out.append(NULLV)
                else:
                    raise OpError()
        return out or self.none()

    def r_unpack(self, e, val):
        out = []
        for v in self.ev(e[1], val):
            if v[0] == "range":
                a, b = v[1], v[2]
                out += [("int", k) for k in (range(a, b + 1) if a <= b else range(a, b - 1, -1))]
            else:
                out.append(v)
        return out or [NULLV]

    def r_self(self, e, val):
        return [val]

    def r_child(self, e, val):
        if self.phase == COMP:
            return [UNDEF]
        if val[0] != "node":
            return [NULLV]
        return [("node", c) for c in self.W.node(val[1])[2]] or [NULLV]

    def r_wild(self, e, val):
        if self.phase == COMP:
            return [UNDEF]
        out = []

        def go(n):
            k, _, ch = self.W.node(n)
            if k == "null":
                return
            out.append(("node", n))
            for c in ch:
                go(c)
        if val[0] == "node":
            go(val[1])
        return out or [NULLV]

    def r_field(self, e, val):
        if val == UNDEF:
            return [UNDEF]
        if val[0] == "node":
            k, _, ch = self.W.node(val[1])
            if k == "object" and e[1] in NAMES[:len(ch)]:
                return [("node", ch[NAMES.index(e[1])])]
            if self.phase == COMP and e[1] in NAMES:
                return [UNDEF]
        return [NULLV]

    def r_call(self, e, val):
        r = getattr(self, "f_" + e[1])(e[2:], val)
        return r if r else [NULLV]

    def f_any(self, a, val):
        for x in a:
            for v in self.ev(x, val):
                t = self.truth(v)
                if t is None and self.phase == COMP:
                    return [UNDEF]
                if t:
                    return [TRUE]
        return [FALSE]

    def f_each(self, a, val):
        for x in a:
            for v in self.ev(x, val):
                t = self.truth(v)
                if t is None and self.phase == COMP:
                    return [UNDEF]
                if not t:
                    return [FALSE]
        return [TRUE]

    f_all = f_each

    def f_count(self, a, val):
        n = 0
        for x in a:
            for v in self.ev(x, val):
                t = self.truth(v)
                if t is None and self.phase == COMP:
                    return [UNDEF]
                n += bool(t)
        return [("int", n)]

    def f_arr(self, a, val):
        return [v for x in a for v in self.ev(x, val)]

    def one(self, e, val):
        v = self.ev(e, val)
        if len(v) != 1:
            raise OpError()
        return v[0]

    def f_range(self, a, val):
        l, r = self.one(a[0], val), self.one(a[1], val)
        if UNDEF in (l, r):
            return [UNDEF]
        l, r = self.plain(l), self.plain(r)
        if l[0] != "int" or r[0] != "int":
            raise OpError()
        return [("range", l[1], r[1])]

    def f_trace(self, a, val):
        if self.phase == COMP:
            return [UNDEF]
        return self.ev(a[0], val)

    def f_select(self, a, val):
        k = self.one(a[1], val)
        n = self.one(a[2], val) if len(a) > 2 else ("int", 1)
        if UNDEF in (k, n):
            return [UNDEF]
        k, n = k[1], n[1]
        out = []
        for j, v in enumerate(self.ev(a[0], val)):
            if self.phase == COMP and v == UNDEF:
                out.append(v)
                continue
            if n > 0 and j >= k + n:
                break
            if j >= k:
                out.append(v)
        return out

    def f_split(self, a, val):
        x, sep = self.one(a[0], val), self.one(a[1], val)
        keep = self.one(a[2], val) if len(a) > 2 else TRUE
        if UNDEF in (x, sep, keep):
            return [UNDEF]
        x, sep = x[1], sep[1]
        if not x:
            return []
        r = x.split(sep) if sep else [x]
        return [("str", y) for y in r if y or keep == TRUE]

    def f_sum(self, a, val):
        t = ("int", 0)
        if len(a) > 2:
            for v in self.ev(a[2], val):
                t = v
        for v in self.ev(a[0], val):
            if self.phase == COMP and UNDEF in (v, t):
                return [UNDEF]
            if len(a) > 1 and a[1] != ADD:
                if a[1][0] not in ("src", "const"):
                    raise OpError()
                t = self.ev(a[1], ("node", 0))[-1]
                continue
            t = v if t == NULLV else self.op2("+", t, v)
        return [t]

    def f_keys(self, a, val):
        out = []
        for v in self.ev(a[0], val):
            if v == UNDEF and self.phase == COMP:
                out.append(UNDEF)
            elif v[0] == "node":
                k, _, ch = self.W.node(v[1])
                if k == "array":
                    raise OpError()
                if k == "object":
                    out += [("str", NAMES[j]) for j in range(len(ch))]
        return out


# ------------------------------------------------------------------ scenarios

def run_eval(W, val):
    """Evaluates under every answer of the consumer; returns the result or None after an exception."""
    return W.num(Cell(W.call("e_eval", W.env, W.x, W.phase, W.make(val))))


def compare(W, want, r, what="values", order=True):
    got = W.out
    stopped = bool(W.answers) and W.answers[-1] == STOP
    if stopped:
        if r != STOP:
            raise Fail(W.scene.where, "the stop of the consumer is not reported to the caller of `%s`" % W.scene.text, W.detail())
        want = want[:len(got)]
    elif r != CONT:
        raise Fail(W.scene.where, "`%s` reports a stop nobody asked for" % W.scene.text, W.detail())
    if want is not None and norm(W, got) != norm(W, want):
        d = W.detail()
        d["expected"] = show(want)
        raise Fail(W.scene.where, "`%s` delivers other %s than the language defines" % (W.scene.text, what), d)


def norm(W, vs):
    return [v[:1] if v[0] == "re" else v for v in vs]


def body(scene, seqs, inputs, shapes, phase=EVAL, mode="unknown", only=None, stops=True):
    """Every choice of operand sequences, input, model shape and consumer answers."""
    def go(I, st):
        W = scene.attach(I, st)
        W.seqs, W.mode = seqs, {k: mode for k in range(4)}
        W.shape = shapes[st.choose(len(shapes), "model")]
        W.phase, W.stops = phase, stops
        v = inputs[st.choose(len(inputs), "input")]
        err = None
        try:
            r = run_eval(W, v)
        except CxxThrow as e:
            err = e
        try:
            want = Ref(W, phase).ev(scene.e, v)
        except OpError:
            if err is None and not (W.answers and W.answers[-1] == STOP):
                raise Unsupported("error expected")
            scene.ok = True
            return None
        if err is not None:
            w, l = site(err.loc)
            raise Fail(w, "`%s` raises an error although the language defines its values" % scene.text, W.detail(), l)
        compare(W, want, r)
        scene.ok = True
        return None
    return go


def seqs_of(alpha, pairs=(), triples=()):
    return [[v] for v in alpha] + [list(x) for x in pairs] + [list(x) for x in triples]


I1, I2, I3 = ("int", 1), ("int", 2), ("int", 3)
I10, I20 = ("int", 10), ("int", 20)
N1 = ("node", 1)
# node 1: object {a: null, b: [7, {}]}; 8: array; 9: object {a: 5, b: "x"}; 20..: scalars
TREE = {1: ("object", None, [2, 3]), 2: ("null", None, []), 3: ("array", None, [4, 5]), 4: ("int", 7, []), 5: ("object", None, []),
        8: ("array", None, [4, 2, 9]), 9: ("object", None, [10, 11]), 10: ("int", 5, []), 11: ("string", "x", []),
        20: ("bool", 0, []), 21: ("bool", 1, []), 22: ("int", 0, []), 23: ("string", "", []), 24: ("object", None, []), 25: ("array", None, []),
        26: ("int", 1, []), 27: ("string", "b", [])}
TREE2 = {**TREE, 1: ("array", None, [9, 2, 8])}
TREE3 = {**TREE, 1: ("int", 3, [])}
LEAN = [TREE]
SEL, WILD, CHILD = ("self",), ("wild",), ("child",)


def fld(n):
    return ("field", n)


def jobs_e01(p, tier):
    J = []
    ints = [[I1], [I1, I2], [I1, I2, I3]]
    tens = [[I10], [I10, I20]]
    some = [[I1], [NULLV], [I1, NULLV, I2], [NULLV, I1, I2]]
    nodes = [[N1], [N1, ("node", 8)], [("node", 24), ("node", 9)]]

    def add(e, seqs, inputs=(N1,), shapes=LEAN, **k):
        J.append((text_of(e), body(Scene(p, e), seqs, list(inputs), list(shapes), **k)))
    two = {0: ints, 1: tens}
    add(P, {0: ints})
    for op in ("and", "or"):
        add((op, P, Q), {0: [[TRUE, FALSE], [FALSE, I1, NULLV], [I1, I2], [NULLV, NULLV, I1]], 1: tens})
    for op in ("+", "*", "==", "<"):
        add(("bin", op, P, Q), two)
    for op in ("-", "not", "typeof"):
        add(("un", op, P), {0: ints})
    add(("bool", P), {0: ints})
    add(("path", P, Q), {0: some, 1: tens + some})
    add(("sub", P, Q), {0: ints, 1: [[TRUE], [FALSE], [TRUE, TRUE], [FALSE, I1]]})
    add(("sub", P, ("path", Q, R)), {0: ints[:2], 1: [[I1], [I1, I2]], 2: [[TRUE], [FALSE, TRUE]]})
    add(("idx", P, Q), {0: nodes, 1: [[("int", 0)], [("int", 1), ("str", "a")], [("str", "b"), ("int", 9), ("int", 0)]]})
    add(("idx", P, Q), {0: [[("str", "xy")], [("str", "xy"), ("str", "z")]], 1: [[("int", 0)], [("int", 1), ("int", 0)]]})
    add(("unpack", P), {0: ints + [[("range", 1, 3)], [("range", 1, 2), I10], [I10, ("range", 3, 1), I20]]})
    for t in (WILD, CHILD):
        add(t, {}, inputs=[N1, ("node", 8), ("node", 24), ("node", 4)], shapes=[TREE, TREE2])
        add(("path", P, t), {0: nodes}, shapes=[TREE, TREE2])
        add(("path", t, P), {0: [[I1], [NULLV], [I1, I2]]}, shapes=[TREE])
        add(("sub", t, P), {0: [[TRUE], [FALSE]]}, shapes=[TREE])
    for f in ("any", "each", "count", "arr"):
        add(call(f, P, Q), {0: [[TRUE], [FALSE, TRUE], [TRUE, FALSE, TRUE]], 1: [[TRUE], [FALSE, NULLV]]})
    add(call("arr"), {})
    for k, n in ((0, 1), (0, 2), (1, 1), (1, 0), (2, 1), (5, 2), (0, -1)):
        add(call("select", P, i(k), i(n)) if n >= 0 else call("select", P, i(k)), {0: ints})
    add(call("trace", P), {0: ints})
    onodes = [[N1], [N1, ("node", 4), ("node", 9)], [("node", 24), ("node", 9)]]
    add(call("keys", P), {0: onodes})
    add(call("sum", P), {0: ints})
    add(call("range", P, Q), {0: [[I1]], 1: [[I3]]})
    # a construct that ends early on its own must not end its surroundings, one that was stopped must
    inner = [call("any", P, Q), call("each", P, Q), call("select", P, i(0)), call("select", P, i(1)), ("sub", P, Q), ("and", P, Q), ("or", P, Q),
             ("path", P, Q), ("unpack", P), ("bin", "+", P, Q), call("trace", P), call("count", P, Q), call("sum", P), ("bool", P)]
    for e in inner:
        ps = [[I1], [I1, I2, I3]] if e[0] != "unpack" else [[("range", 1, 2)], [I1]]
        add(call("arr", e, R), {0: ps, 1: [[I1], [FALSE, I1]] if e[0] != "bin" else tens, 2: [[("int", 7)]]})
        add(("path", R, e), {0: ps, 1: [[I1], [FALSE, I1]] if e[0] != "bin" else tens, 2: [[I1], [I1, I2]]})
    add(call("arr", call("arr", P, Q), R), {0: ints[:2], 1: tens, 2: [[("int", 7)]]})
    add(call("arr", call("split", s("a.b.c"), s(".")), P), {0: [[I1]]})
    add(call("arr", call("keys", P), R), {0: onodes, 2: [[("int", 7)]]})
    for t in (WILD, CHILD):
        add(call("arr", t, R), {2: [[("int", 7)]]})
        add(call("arr", call("any", t), call("select", t, i(0)), R), {2: [[("int", 7)]]})
    add(call("split", P, Q), {0: [[("str", "a.b..c")], [("str", "")], [("str", ".")]], 1: [[("str", ".")], [("str", "")]]})
    return J


ALLK = [NULLV, TRUE, FALSE, ("int", 0), I1, ("str", ""), ("str", "a"), ("range", 1, 2)] + [("node", k) for k in (2, 20, 21, 22, 23, 24, 25, 9)]


def jobs_e02(p, tier):
    J = []

    def add(e, seqs, inputs=(N1,), shapes=LEAN, stops=False, **k):
        for ph, m in ((EVAL, "unknown"), (COMP, "raw")):
            sq = seqs
            if ph == COMP:
                sq = {a: b + [[UNDEF]] + [[x[0], UNDEF] for x in b if x][:2] for a, b in seqs.items()}
            inp = list(inputs) + ([UNDEF] if ph == COMP else [])
            J.append((text_of(e), body(Scene(p, e), sq, inp, list(shapes), phase=ph, mode=m, stops=stops, **k)))
    vals = [[NULLV], [("node", 2)], [I1], [("str", "x")], [N1], [("node", 9)], [NULLV, I1], [I1, NULLV, ("node", 2)], [NULLV, NULLV]]
    add(("path", P, Q), {0: vals, 1: vals})
    add(("path", ("path", P, Q), R), {0: [[I1, I2], [NULLV], [I1]], 1: [[I1, NULLV], [NULLV, I3]], 2: [[NULLV], [I10, I20]]})
    add(("sub", P, Q), {0: vals, 1: [[TRUE], [FALSE], [NULLV], [FALSE, TRUE], [TRUE, TRUE], [("node", 2)]]})
    add(("idx", P, Q), {0: [[N1], [("node", 8)], [("node", 9), N1], [("node", 4)], [("node", 24)], [NULLV], [("str", "ab")], [NULLV, ("node", 8)]],
                        1: [[("int", 0)], [("int", 1), ("int", 0)], [("int", 2)], [("int", -1)], [("int", 1 << 40)], [("str", "a")], [("str", "b"), ("str", "zz")],
                            [("node", 26)], [("node", 27)]]})
    for t in (WILD, CHILD, SEL, fld("a"), fld("b"), fld("zz"), ("idx", SEL, i(1)), ("idx", SEL, s("a"))):
        add(t, {}, inputs=[("node", k) for k in (1, 2, 3, 4, 5, 8, 9)], shapes=[TREE, TREE2, TREE3])
        add(("path", P, t), {0: [[N1], [NULLV], [("node", 2)], [("node", 8), ("node", 9)], [NULLV, ("node", 9)]]}, shapes=[TREE, TREE2])
    for t in (WILD, CHILD):
        add(("path", t, P), {0: [[NULLV], [I1], [("node", 2)], [I1, NULLV, I2]]}, shapes=[TREE])
        add(("sub", t, P), {0: [[TRUE], [FALSE], [FALSE, NULLV]]}, shapes=[TREE])
        add(("path", t, fld("a")), {}, shapes=[TREE, TREE2])
        add(("path", t, CHILD), {}, shapes=[TREE, TREE2])
        add(("path", ("path", t, WILD), fld("b")), {}, shapes=[TREE2])
    add(("path", SEL, ("path", fld("b"), ("idx", SEL, i(0)))), {}, shapes=[TREE, TREE2])
    rng = [[("range", 1, 3)], [("range", 3, 1)], [("range", 2, 2)], [I1], [NULLV], [I10, ("range", 1, 2), I20], [("node", 9)]]
    add(("unpack", P), {0: rng})
    two = {0: [[I1], [I1, I2], [I1, I2, I3], [NULLV, I1]], 1: [[I10], [I10, I20], [I10, NULLV]]}
    for op in ("+",):
        add(("bin", op, P, Q), two)
    for op in ("*", "==", "!=", "<"):
        add(("bin", op, P, Q), {0: [[I1], [I1, I2, I10]], 1: [[I2], [I1, I10]]})
    for op in ("-", "not", "typeof", "#"):
        add(("un", op, P), {0: [[("str", "abc")], [("str", "")], [("str", "a"), ("str", "ab")]] if op == "#" else [[I1], [I1, I2], [I1, I2, I3], [I1, NULLV]]})
    add(P, {0: [[], [NULLV], [I1, NULLV], [NULLV, NULLV, I1]]})
    # functions over lists of values
    lists = [[I1], [NULLV], [I1, NULLV, I2], [I1, I2, I3], [NULLV, NULLV]]
    add(call("arr", P, Q), {0: lists, 1: lists})
    add(call("arr"), {})
    for k in (0, 1, 2, 3, -1):
        for n in (None, 1, 2, 0):
            add(call("select", P, ("const", ("int", k), str(k)), *([] if n is None else [i(n)])), {0: lists})
    big = (1 << 63) - 1
    add(call("select", P, i(big), i(big)), {0: lists})
    add(call("select", P, i(1), i(big)), {0: lists})
    for a in ("a.b.c", "a", "", ".", "a..b", ".a.", "ab--c"):
        for sep in (".", "", "a", "--"):
            for keep in (None, TRUE, FALSE):
                e = call("split", P, Q, *([] if keep is None else [("const", keep, "true" if keep == TRUE else "false")]))
                add(e, {0: [[("str", a)]], 1: [[("str", sep)]]})
    add(call("keys", P), {0: [[("node", 24)], [("node", 4)], [("node", 9), ("node", 5)], [NULLV], [I1], [NULLV, ("node", 9)]]}, shapes=[TREE, TREE2])
    add(call("sum", P), {0: lists})
    add(call("sum", P, ("bin", "+", fld("$sum"), fld("$val"))), {0: [[I1], [I1, I2], [I1, I2, I3]]})
    add(call("range", P, Q), {0: [[I1]], 1: [[I3]]})
    add(call("trace", P), {0: lists})
    return J


def jobs_e04(p, tier):
    J = []

    def add(e, seqs, stops=False, inputs=(N1,)):
        for ph, m in ((EVAL, "unknown"), (COMP, "raw")):
            sq = seqs if ph == EVAL else {a: b + [[UNDEF], [UNDEF, TRUE], [TRUE, UNDEF], [FALSE, UNDEF], [UNDEF, FALSE]] for a, b in seqs.items()}
            J.append((text_of(e), body(Scene(p, e), sq, list(inputs), LEAN, phase=ph, mode=m, stops=stops)))
    one = [[v] for v in ALLK]
    few = [[TRUE], [FALSE], [NULLV], [I1], [TRUE, FALSE], [FALSE, TRUE], [NULLV, NULLV], [FALSE, FALSE, I1], [TRUE, ("str", ""), FALSE]]
    for op in ("and", "or"):
        add((op, P, Q), {0: one, 1: one})
        add((op, P, Q), {0: few, 1: [[I10], [I10, FALSE]]})
        add((op, (op, P, Q), R), {0: few[:4], 1: few[:4], 2: few[:4]})
        add(("or" if op == "and" else "and", (op, P, Q), R), {0: few[:4], 1: few[:4], 2: few[:4]})
    for f in ("any", "each", "all", "count"):
        add(call(f, P), {0: one + few})
        add(call(f, P, Q), {0: few, 1: few})
        add(call(f, P, Q, R), {0: few[:3] + few[4:6], 1: few[:3], 2: few[:3] + few[7:8]})
    add(("sub", P, Q), {0: one, 1: one})
    add(("sub", P, Q), {0: [[I1, I2], [I1, NULLV, I3]], 1: few})
    add(("bool", P), {0: one + few})
    add(("un", "not", P), {0: one + few})
    add(("un", "not", ("and", P, Q)), {0: few[:4], 1: few[:4]})
    return J


# ---- folding

FORMS = [("and", P, Q), ("or", P, Q), ("bin", "+", P, Q), ("bin", "==", P, Q), ("un", "not", P), ("un", "-", P), ("un", "typeof", P), ("bool", P), ("sub", P, Q),
         ("path", P, Q), ("idx", P, Q), ("unpack", P), call("any", P, Q), call("each", P, Q), call("count", P, Q), call("arr", P, Q), call("select", P, i(0), i(2)),
         call("select", P, i(1)), call("sum", P), call("sum", P, ("bin", "+", fld("$sum"), fld("$val"))), call("sum", P, ("bin", "+", fld("$sum"), fld("$val")), Q), call("sum", P, Q),
         call("keys", P), call("trace", P), call("range", P, Q), P]
DEEP = [("and", ("bin", "==", P, Q), R), ("or", ("sub", P, Q), R), ("bin", "+", ("path", P, Q), R), call("any", ("path", P, Q), R), call("count", ("sub", P, Q)),
        ("sub", ("bin", "+", P, Q), R), ("path", ("or", P, Q), R), call("any", call("arr", P, Q), R), ("un", "not", call("any", P, Q)),
        ("bin", "+", call("sum", P), Q), call("select", call("arr", P, Q, R), i(1), i(2)), ("idx", call("arr", P, Q), R), call("arr", ("and", P, Q), R)]


def ints_only(e):
    return True


def fold_seqs(e):
    k = e[0]
    ints = [[I1], [I1, I2]]
    if k in ("and", "or", "sub") or k == "call" and e[1] in ("any", "each", "count"):
        b = [[TRUE], [FALSE], [NULLV], [FALSE, TRUE]]
        return {0: b, 1: b, 2: b}
    if k == "idx":
        return {0: [[("str", "ab")], [("node", 8)], [("str", "a"), ("str", "b")]], 1: [[("int", 0)], [("int", 1)]], 2: [[("int", 0)]]}
    if k == "unpack":
        return {0: [[("range", 1, 3)], [I1], [NULLV], [("range", 1, 2), I3]]}
    if k == "call" and e[1] == "keys":
        return {0: [[N1], [NULLV], [("node", 9), I1]]}
    if k == "call" and e[1] == "range":
        return {0: [[I1]], 1: [[I3]]}
    if k == "path":
        return {0: [[I1], [NULLV], [NULLV, I2]], 1: [[I1], [NULLV], [I2, NULLV]], 2: ints}
    return {0: ints, 1: [[I10], [I10, I20]], 2: [[I1], [I2, I3]]}


def fold_body(p, e, modes, seqs, flags=(False, False), inputs=(N1,), shapes=LEAN):
    def go(I, st):
        sc = Scene(p, e)
        sc.any, sc.wild = flags

        def setup(W):
            W.seqs = seqs
            W.shape = shapes[0]
            for k in range(4):
                W.mode[k] = modes[k] if k < len(modes) else "unknown"
        try:
            W = sc.fresh(I, st, setup)
        except CxxThrow as err:
            raise Unsupported("compile raises")
        val = inputs[st.choose(len(inputs), "input")]
        W.shape = shapes[st.choose(len(shapes), "model")]
        W.stops = False
        err = None
        try:
            r = run_eval(W, val)
        except CxxThrow as x:
            err = x
        ref = Ref(W, EVAL)
        try:
            want = ref.ev(e, val)
            if flags[1] and W.rootconst:
                want = [ref.op2("==", n, v) for n in ref.ev(WILD, val) for v in want]
            if flags[0]:
                want = [("bool", int(any(ref.truth(v) for v in want)))]
        except OpError:
            return None
        if err is not None:
            raise Fail(site(err.loc)[0], "`%s` raises an error although the language defines its values" % sc.text, W.detail())
        d = W.detail()
        d["known when compiling"] = ", ".join("%s: %s" % (SRC[k], W.mode[k]) for k in sorted(seqs))
        d["compiled to"] = pystr(I, W.call("e_string", W.x))
        d["expected"] = show(want)
        if norm(W, W.out) != norm(W, want):
            raise Fail(sc.where, "compiling `%s` changes its values" % sc.text, d)
    return go


def scaled(p, I):
    """Large constants of the compiler become small, so that reaching them takes little."""
    n = 0
    for k, v in p.vars.items():
        if v.get("repo") and str(v.get("n", "")).startswith("simfil::") and v.get("f", "").endswith("src/simfil.cpp"):
            x = v.get("init") or {}
            while x.get("k") == "cast":
                x = x["e"]
            if x.get("k") == "lit" and isinstance(x.get("v"), int) and x["v"] >= 1000:
                I.statics[k] = Cell(40, v["t"])
                n += 1
    return n


def limit_body(p, e, pathological):
    """A source that never ends: folding must give up."""
    def go(I, st):
        sc = Scene(p, e)
        bound = [100000]

        def setup(W):
            W.n = 0
            v = W.make(I1)
            if scaled(p, I):
                bound[0] = 2000

            def nxt(I, this, a, loc):
                W.n += 1
                if W.n > bound[0]:
                    raise Fail("src/simfil.cpp: simfil::simplifyOrForward", "folding `%s` collects constants without a limit" % sc.text, {"values": W.n})
                return Ptr(v)
            I.hooks["probe::next"] = nxt
            I.step_limit = 1 << 40
            I.max_iter = 1 << 40
        try:
            W = sc.fresh(I, st, setup)
        except CxxThrow:
            return None
        if W.call("e_constant", W.x):
            raise Fail("src/simfil.cpp: simfil::simplifyOrForward", "an expression with more values than the limit is folded to a part of them", {"expression": sc.text})
    return go


def jobs_e03(p, tier):
    J = []
    M = ("unknown", "known", "mixed")
    for e in FORMS:
        sq = fold_seqs(e)
        n = 1 + max([a[1] for a in walk(e) if a[0] == "src"] or [0])
        for m in combos(M, n):
            J.append((text_of(e), fold_body(p, e, m, sq)))
    for e in DEEP:
        sq = {0: [[I1], [I1, I2]], 1: [[I1], [FALSE]], 2: [[I2], [NULLV]]}
        if e[0] == "bin" or e[0] == "call" and e[1] == "count":
            sq = {0: [[I1], [I1, I2]], 1: [[I1], [I3]], 2: [[I2], [NULLV]]}
        if e[0] == "idx":
            sq = {0: [[("str", "ab")]], 1: [[("str", "c")], [("str", "de"), ("str", "f")]], 2: [[("int", 0)], [("int", 1)]]}
        n = 1 + max(a[1] for a in walk(e) if a[0] == "src")
        for m in combos(M if n < 3 or tier == "thorough" else M[:2], n):
            J.append((text_of(e), fold_body(p, e, m, sq)))
    # expressions over the model are never folded
    for e in (CHILD, WILD, SEL, fld("a"), fld("b"), ("path", fld("b"), CHILD), ("idx", SEL, i(0)), ("idx", SEL, s("a")), ("sub", SEL, P), ("sub", CHILD, P), call("any", CHILD),
              call("count", WILD), call("keys", SEL), call("sum", CHILD, i(1)), ("bin", "==", WILD, i(7)), ("path", P, fld("a")), ("path", P, CHILD), ("and", P, fld("b")),
              ("or", P, fld("b")), call("each", WILD), ("bool", fld("a")), ("un", "not", fld("a")), call("select", WILD, i(1)), call("arr", P, fld("b")), ("un", "typeof", fld("b"))):
        n = 1 if P in list(walk(e)) else 0
        for m in combos(M, n):
            J.append((text_of(e), fold_body(p, e, m, {0: [[TRUE], [FALSE], [("node", 9)], [NULLV], [I1, I2]]}, inputs=[N1, ("node", 8), ("node", 4)], shapes=[TREE, TREE2])))
    for e in (P, ("unpack", P), ("bool", P), ("bin", "+", P, i(1)), call("arr", P), ("and", P, i(1))):
        J.append((text_of(e), limit_body(p, e, True)))
    return J


def walk(e):
    yield e
    for x in e[1:]:
        if isinstance(x, tuple) and x and isinstance(x[0], str) and x[0] not in ("int", "str", "bool", "null", "undef"):
            yield from walk(x)


def combos(xs, n):
    if n == 0:
        return [()]
    return [(x,) + r for x in xs for r in combos(xs, n - 1)]


# ---- values without a node

def any_body(p, text, seqs, inputs, phase, mode, shapes=LEAN):
    """No undefined behaviour, no internal error, at least one value."""
    sc = Scene(p, None, text=text)

    def go(I, st):
        W = sc.attach(I, st)
        W.seqs, W.mode = seqs, {k: mode for k in range(4)}
        W.shape = shapes[st.choose(len(shapes), "model")]
        W.phase, W.stops = phase, False
        v = inputs[st.choose(len(inputs), "input")]
        try:
            r = run_eval(W, v)
        except CxxThrow as e:
            n = exc_name(e)
            if n not in USER_ERRORS or internal(e):
                w, l = site(e.loc)
                if internal(e):
                    n += " of " + internal(e)
                d = W.detail()
                d["input"] = show([v])
                raise Fail(w, "evaluating `%s` ends in an internal error (%s)" % (text, n), d, l)
            sc.ok = True
            return
        except UBEvent as e:
            w, l = site(e.loc)
            d = W.detail()
            d["input"] = show([v])
            raise Fail(w, "undefined behaviour: " + e.msg, d, l)
        if not W.out:
            raise Fail(sc.where, "`%s` delivers no value" % text, W.detail())
        sc.ok = True
    return go


USER_ERRORS = {"std::runtime_error", "simfil::InvalidOperandsError", "simfil::ArgumentCountError", "simfil::ArgumentTypeError", "simfil::ArgumentValueCountError"}


def internal(e):
    """The part of the model that raised the error, None for an error of the evaluator."""
    for f in reversed(e.stack):
        n, file = f["n"].split("<")[0], f.get("f", "")
        if file.endswith("exception-handler.h") or n == "simfil::raise" or not file.startswith(prog.REPO):
            continue
        return f["n"] if "/model/" in file else None
    return None


def exc_name(e):
    v = e.v
    return getattr(v, "n", None) or getattr(v, "name", None) or (v.rid.split(":", 1)[-1].split(" ")[-1] if isinstance(v, Rec) else type(v).__name__)


def jobs_e05(p, tier):
    J = []
    loose = [UNDEF, NULLV, TRUE, I1, ("float", 0.5), ("str", "ab"), ("range", 1, 3), ("re", "a"), ("node", 2), ("node", 4), N1, ("node", 8)]
    forms = ["*", "**", "_", "a", "zz", "_[0]", "_['a']", "_{p()}", "*{p()}", "**{p()}", "keys(_)", "any(*)", "count(**)", "each(**)", "select(**, 0)", "sum(*)", "sum(**, 1)",
             "trace(*)", "arr(*, **)", "_...", "typeof _", "_?", "a.b", "*.a", "**.a", "*.*", "**.**", "a[0]", "a{b}", "*[0]", "**['a']", "typeof *", "_ as string", "* as string",
             "_ and *", "_ or **", "any(_)", "[0]", "['a']", "{a}", "{*}"]
    for t in forms:
        for ph, m in ((EVAL, "unknown"), (COMP, "raw")):
            J.append((t, any_body(p, t, {0: seqs_of([NULLV, TRUE, I1, N1])}, loose, ph, m)))
    forms = ["p().*", "p().**", "p().a", "p()._", "p().zz", "p()[0]", "p()['a']", "p()[q()]", "p(){*}", "p(){**}", "p(){a}", "p(){q()}", "keys(p())", "p().*.*", "p()...",
             "sum(p(), $val)", "sum(p(), $sum)", "sum(p(), $idx)", "sum(p(), $val.a)", "sum(p(), $val.*)", "sum(p(), $val.**)", "sum(p(), $sum.a)", "sum(p(), $sum.*)", "sum(p(), *)", "sum(p(), **)",
             "sum(p(), _)", "sum(p(), a)", "sum(p(), _[0])", "sum(p(), _['a'])", "sum(p(), keys(_))", "sum(p(), $val, q())", "sum(p(), $sum, q())", "sum(p(), $sum.*, q())",
             "sum(p(), count(*))", "sum(p(), {a})", "sum(p(), _ as string)", "sum(p(), typeof _)", "sum(p(), _?)", "sum(p(), $val[0])", "sum(p(), $val{a})", "sum(p(), any(_))",
             "trace(p())", "trace(p(), 1)", "select(p(), 0)", "any(p())", "each(p())", "count(p())", "arr(p(), q())", "p()?", "typeof p()", "p() as string", "p() and q()", "p() or q()", "not p()"]
    for t in forms:
        for ph, m in ((EVAL, "unknown"), (COMP, "raw")):
            J.append((t, any_body(p, t, {0: [[v] for v in loose if ph == COMP or v != UNDEF] + [[NULLV, I1], [I1, N1]], 1: [[v] for v in (NULLV, ("int", 0), ("str", "a"), N1)]},
                                  [N1, NULLV] + ([UNDEF] if ph == COMP else []), ph, m)))
    return J


# ---- functions and their arguments

SIGS = {  # name: (at least, at most, {index: kind})
    "any": (1, None, {}), "each": (1, None, {}), "all": (1, None, {}), "count": (1, None, {}), "arr": (0, None, {}),
    "trace": (1, None, {1: "int", 2: "str"}), "range": (2, 2, {0: "int", 1: "int"}), "re": (1, 1, {0: "str|re"}), "split": (2, None, {0: "str", 1: "str", 2: "bool"}),
    "select": (2, None, {1: "int", 2: "int"}), "sum": (1, 3, {}), "keys": (1, 1, {}),
}
ARGK = [NULLV, TRUE, I1, ("float", 0.5), ("str", "a"), ("range", 1, 2), ("re", "a"), ("node", 4), ("node", 11), ("node", 2), N1]


def kind_ok(W, v, k):
    if v[0] == "node":
        kk = {"string": "str"}.get(W.node(v[1])[0], W.node(v[1])[0])
    else:
        kk = v[0]
    return kk in k.split("|")


def fn_body(p, name, n, phase, mode, seqs, opt="only"):
    text = "%s(%s)" % (name, ", ".join(SRC[k] + "()" for k in range(n)))
    sc = Scene(p, None, text=text)
    lo, hi, kinds = SIGS[name]

    def go(I, st):
        try:
            W = sc.attach(I, st)
        except CxxThrow as e:
            if not (lo <= n and (hi is None or n <= hi)):
                sc.base, sc.ok = None, True
                if exc_name(e) not in USER_ERRORS:
                    raise Fail(site(e.loc)[0], "%d arguments of %s end in an internal error (%s)" % (n, name, exc_name(e)))
                return
            raise Fail(site(e.loc)[0], "%s with %d arguments is rejected" % (name, n), {"error": exc_name(e)})
        W.scene = sc
        W.seqs, W.mode, W.shape = seqs, {k: mode for k in range(4)}, TREE
        W.phase, W.stops = phase, False
        f = "src/function.cpp: simfil::%s" % name
        if not (lo <= n and (hi is None or n <= hi)):
            raise Fail(f, "%s accepts %d arguments" % (name, n), {"expression": text})
        err = None
        try:
            run_eval(W, N1)
        except CxxThrow as e:
            err = e
        args = {k: W.memo.get((k, N1, phase) if mode == "raw" else (k, N1)) for k in range(n)}
        args = {k: [NULLV] if v == [] else v for k, v in args.items()}
        if err is not None and exc_name(err) not in USER_ERRORS:
            raise Fail(site(err.loc)[0], "evaluating `%s` ends in an internal error (%s)" % (text, exc_name(err)), W.detail())
        bad = [k for k in kinds if k < n and args[k] is not None and (len(args[k]) != 1 and "re" not in kinds[k] or
                                                                  any(v != UNDEF and not kind_ok(W, v, kinds[k]) for v in args[k]))]
        if bad and err is None:
            raise Fail(f, "%s accepts a wrong value for argument %d" % (name, bad[0] + 1), W.detail())
        if not bad and err is not None and name != "sum":
            raise Fail(site(err.loc)[0], "%s rejects arguments of the documented kinds" % name, W.detail())
        if err is None and not W.out:
            raise Fail(f, "`%s` delivers no value" % text, W.detail())
        sc.ok = True
    return go


def jobs_e07(p, tier):
    J = []
    for name, (lo, hi, kinds) in SIGS.items():
        for n in range(0, 5):
            few = {k: [[I1]] for k in range(4)}
            for k, t in kinds.items():
                few[k] = [[{"int": I1, "str": ("str", "a"), "bool": TRUE, "str|re": ("str", "a")}[t]]]
            valid = lo <= n and (hi is None or n <= hi)
            for ph, m in ((EVAL, "unknown"), (COMP, "raw")):
                if not valid:
                    J.append((name, fn_body(p, name, n, ph, m, few)))
                    continue
                for k in range(n):
                    sq = dict(few)
                    sq[k] = [[v] for v in ARGK] + [[I1, I2], [("str", "a"), ("str", "b")], [NULLV, I1], [I1, TRUE], [("str", "a"), I1], []]
                    if ph == COMP:
                        sq[k] = sq[k] + [[UNDEF], [UNDEF, I1]]
                    J.append(("%s/%d" % (name, k), fn_body(p, name, n, ph, m, sq)))
                if n >= 2:
                    for a in range(n):
                        for b in range(a + 1, n):
                            sq = dict(few)
                            for k in (a, b):
                                sq[k] = [[NULLV], [I1], [("str", "a")], [TRUE]] + ([[UNDEF]] if ph == COMP else [])
                            J.append(("%s/%d,%d" % (name, a, b), fn_body(p, name, n, ph, m, sq)))
    for t in ("zzz(p())", "zzz()"):
        J.append((t, unknown_fn(p, t)))
    return J


def unknown_fn(p, text):
    def go(I, st):
        sc = Scene(p, None, text=text)
        try:
            sc.attach(I, st)
        except CxxThrow as e:
            if exc_name(e) not in USER_ERRORS:
                raise Fail(site(e.loc)[0], "calling an unknown function ends in an internal error (%s)" % exc_name(e))
            return
        raise Fail(sc.where, "calling an unknown function is not an error", {"expression": text})
    return go


EXPL = {
    "E01": "every construct and function of the language over every listed sequence of operand values, and every answer of the consumer; deliveries after a stop, model elements visited "
           "after a stop, and the status reported to the caller",
    "E02": "every navigation, operator and list function over sequences of values with and without nodes, null and unknown, in both phases: the delivered list against the denotation",
    "E03": "every construct compiled with each operand known, partially known or unknown, then evaluated: the values against those of the unfolded expression; endless constants",
    "E04": "and, or, not, ?, sub-queries, any, each, all and count over every kind of value and sequences of them, in both phases: against their truth tables",
    "E05": "every construct and function on every kind of input and operand without a node, in both phases: undefined behaviour, internal errors, missing values",
    "E07": "every built-in function with 0 to 4 arguments of every kind and number of values, in both phases: rejected exactly when the signature says so, never by undefined behaviour or an internal error",
}
JOBS = {"E01": jobs_e01, "E02": jobs_e02, "E03": jobs_e03, "E04": jobs_e04, "E05": jobs_e05, "E07": jobs_e07}


def check(pid, tier):
    from .c_values import run
    p = load()
    deadline = time.time() + (420 if tier == "quick" else 780)
    return run(p, pid, JOBS[pid](p, tier), deadline, EXPL[pid], n=64)
