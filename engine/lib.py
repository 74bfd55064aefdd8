"""Transfer functions for the C++ library operations the repository uses."""
import re
from fractions import Fraction
from .dom import *
from .prog import strip_ns
from . import text as T
from .interp import (Cell, Ptr, APtr, Rec, Arr, CStr, StdObj, PyObj, FnV, UNINIT, NULL, LibExc, CxxThrow, RefField)


def base_name(n):
    """'std::vector<X, A>::push_back' -> ('std::vector', 'push_back')"""
    n = strip_ns(n)
    depth = 0
    cut = -1
    i = 0
    # find the last '::' outside template arguments; operators may contain < or >
    m = re.search(r"(^|::)(operator.*)$", n)
    stop = len(n)
    if m and n[:m.start(2)].count("<") == n[:m.start(2)].count(">"):
        cls = n[:m.start(2)]
        cls = cls[:-2] if cls.endswith("::") else cls
        return strip_args(cls), m.group(2)
    for i, c in enumerate(n):
        if c == "<":
            depth += 1
        elif c == ">":
            depth -= 1
        elif c == ":" and depth == 0 and n[i:i + 2] == "::":
            cut = i
    if cut < 0:
        return "", strip_args(n)
    return strip_args(n[:cut]), strip_args(n[cut + 2:])


def strip_args(n):
    out = []
    depth = 0
    for c in n:
        if c == "<":
            depth += 1
        elif c == ">":
            depth -= 1
        elif depth == 0:
            out.append(c)
    return "".join(out)


OPN = {
    "operator==": "op_eq", "operator!=": "op_ne", "operator<": "op_lt", "operator>": "op_gt", "operator<=": "op_le",
    "operator>=": "op_ge", "operator[]": "op_index", "operator()": "op_call", "operator*": "op_deref", "operator->": "op_arrow",
    "operator++": "op_inc", "operator--": "op_dec", "operator+": "op_add", "operator-": "op_sub", "operator+=": "op_iadd",
    "operator-=": "op_isub", "operator=": "op_assign", "operator bool": "op_bool", "operator!": "op_not",
}


def mname(m):
    if m in OPN:
        return OPN[m]
    if m.startswith("operator "):
        return "conv"
    return "m_" + m


# ---------------------------------------------------------------- helpers
def val(a):
    return a.v if isinstance(a, Cell) else a


def rd(I, a, node=None):
    if isinstance(a, Cell):
        if a.dead:
            I.ub("use of an object after its lifetime", node)
        return a.v
    return a


def as_text(I, a, loc=None):
    """Text of a string-like argument."""
    v = rd(I, a, loc)
    if isinstance(v, (StrObj, SvObj)):
        if isinstance(v, SvObj):
            v.check(I, loc)
        return v.t
    if isinstance(v, CStr):
        return cstr_text(I, APtr(v, 0), loc)
    if isinstance(v, APtr):
        return cstr_text(I, v, loc)
    if v is NULL:
        I.ub("null pointer used as a string", loc)
    raise Unsupported("string-like argument %r" % (v,))


def cstr_text(I, p, loc=None):
    if isinstance(p.o, CStr):
        i = I.concrete(p.i, "pointer offset")
        b = p.o.b[i:]
        k = b.find(b"\0")
        return T.const(b if k < 0 else b[:k])
    if isinstance(p.o, (StrObj, SvObj)):
        i = I.st.simp(p.i)
        if i == 0:
            return p.o.t
        return T.sub(I.st, p.o.t, i, None)
    if isinstance(p.o, Arr):
        out = []
        i = I.concrete(p.i, "pointer offset")
        while True:
            c = p.o.at(I, i, loc)
            x = c.v
            x = to_byte(x)
            if I.st.cmp("==", x, 0, "c string"):
                return T.norm(I.st, out)
            out.append(("c", x))
            i += 1
    raise Unsupported("C string")


def to_byte(v):
    if isinstance(v, TF):
        return TF(v.s, tuple(None if x is None else x & 255 for x in v.tab))
    if isnum(v):
        return int(v) & 255
    raise Unsupported("character value")


def to_char(b):
    if isinstance(b, TF):
        return TF(b.s, tuple(None if x is None else SIGNED[x] for x in b.tab))
    return SIGNED[b]


def isstr(v):
    return isinstance(v, (StrObj, SvObj, CStr)) or (isinstance(v, APtr) and isinstance(v.o, (CStr, StrObj, SvObj)))


def B(x):
    return 1 if x else 0


class LibValue(StdObj):
    """Immutable library value: copies share."""

    def copy(self, I):
        return self


# ---------------------------------------------------------------- strings
class StrBase(StdObj):
    name = "string"

    def size(self, I):
        return T.length(I.st, self.t)

    def m_size(self, I, a, loc):
        return self.size(I)

    m_length = m_size

    def m_empty(self, I, a, loc):
        return B(I.st.cmp("==", self.size(I), 0, "empty@%s" % I.here(loc)))

    def charcell(self, I, i):
        return Cell(to_char(T.at(I.st, self.t, i)))

    def at(self, I, i, loc):
        if not I.st.cmp("<", i, self.size(I), "end of text@%s" % I.here(loc)) or (not isnum(i) and not I.st.cmp(">=", i, 0, "index")):
            I.ub("character read outside the text", loc)
        return self.charcell(I, i)

    def op_index(self, I, a, loc):
        i = rd(I, a[0])
        if isinstance(self, StrObj):
            if I.st.cmp("==", i, self.size(I), "index==size"):
                return Cell(0)
        return self.at(I, i, loc)

    def m_at(self, I, a, loc):
        i = rd(I, a[0])
        if not I.st.cmp("<", i, self.size(I), "at"):
            I.throw("std::out_of_range", "at", loc)
        return self.charcell(I, i)

    def m_front(self, I, a, loc):
        return self.at(I, 0, loc)

    def m_back(self, I, a, loc):
        return self.at(I, I.st.sub(self.size(I), 1), loc)

    def m_begin(self, I, a, loc):
        return It(self, 0)

    m_cbegin = m_begin

    def m_end(self, I, a, loc):
        return It(self, self.size(I))

    m_cend = m_end

    def m_rbegin(self, I, a, loc):
        return RIt(self, self.size(I))

    def m_rend(self, I, a, loc):
        return RIt(self, 0)

    def m_data(self, I, a, loc):
        return APtr(self, 0)

    m_c_str = m_data

    def item(self, I, i, loc):
        return self.at(I, i, loc)

    def m_substr(self, I, a, loc):
        off = rd(I, a[0]) if a else 0
        n = rd(I, a[1]) if len(a) > 1 else None
        if n == (1 << 64) - 1:
            n = None
        if not I.st.cmp("<=", off, self.size(I), "substr@%s" % I.here(loc)):
            I.throw("std::out_of_range", "substr", loc)
        t = T.sub(I.st, self.t, off, n)
        return self.sub(I, t)

    def m_compare(self, I, a, loc):
        st = I.st
        if len(a) == 1:
            return T.cmp3(st, self.t, as_text(I, a[0], loc))
        off, n = rd(I, a[0]), rd(I, a[1])
        if not st.cmp("<=", off, self.size(I), "compare@%s" % I.here(loc)):
            I.throw("std::out_of_range", "compare", loc)
        o = as_text(I, a[2], loc)
        if len(a) == 4:
            o = T.sub(st, o, 0, rd(I, a[3]))
        elif len(a) == 5:
            o = T.sub(st, o, rd(I, a[3]), rd(I, a[4]))
        # lazily: compare characters before asking for the length of the rest
        m = T.length(st, o)
        if isnum(m) and isnum(n) and n == m and m <= 32:
            for i in range(m):
                if not st.cmp("<", st.add(off, i), self.size(I), "compare end@%s" % I.here(loc)):
                    return -1
                x, y = T.at(st, self.t, st.add(off, i)), T.at(st, o, i)
                if not st.cmp("==", x, y, "compare@%s" % I.here(loc)):
                    d = st.simp(st.sub(x, y))
                    return d if isnum(d) or isinstance(d, TF) else (1 if st.cmp(">", x, y) else -1)
            return 0
        return T.cmp3(st, T.sub(st, self.t, off, n), o)

    def m_starts_with(self, I, a, loc):
        st = I.st
        v = rd(I, a[0])
        o = T.Text([("c", to_byte(v))]) if isnum(v) or isinstance(v, TF) else as_text(I, a[0], loc)
        m = T.length(st, o)
        if not isnum(m):
            raise Unsupported("starts_with")
        for i in range(m):
            if not st.cmp("<", i, self.size(I), "starts_with@%s" % I.here(loc)):
                return 0
            if not st.cmp("==", T.at(st, self.t, i), T.at(st, o, i), "starts_with@%s" % I.here(loc)):
                return 0
        return 1

    def m_ends_with(self, I, a, loc):
        raise Unsupported("ends_with")

    def finder(self, I, pred, start, loc, neg=False):
        st = I.st
        i = start
        for _ in range(70):
            if not st.cmp("<", i, self.size(I), "find@%s" % I.here(loc)):
                return (1 << 64) - 1
            if pred(T.at(st, self.t, i)) != neg:
                return i
            i = st.add(i, 1)
        raise PathEnd("loop bound in find at " + I.here(loc))

    def m_find(self, I, a, loc):
        v = rd(I, a[0])
        start = rd(I, a[1]) if len(a) > 1 else 0
        st = I.st
        if isnum(v) or isinstance(v, TF):
            b = to_byte(v)
            return self.finder(I, lambda c: st.cmp("==", c, b, "find@%s" % I.here(loc)), start, loc)
        o = as_text(I, v, loc)
        cs = T.chars(st, o)
        if cs is None:
            raise Unsupported("find of an abstract text")
        i = start
        for _ in range(70):
            ok = True
            for k, c in enumerate(cs):
                if not st.cmp("<", st.add(i, k), self.size(I), "find@%s" % I.here(loc)):
                    return (1 << 64) - 1
                if not st.cmp("==", T.at(st, self.t, st.add(i, k)), c, "find@%s" % I.here(loc)):
                    ok = False
                    break
            if ok:
                if not cs and not st.cmp("<=", i, self.size(I), "find"):
                    return (1 << 64) - 1
                return i
            i = st.add(i, 1)
        raise PathEnd("loop bound in find at " + I.here(loc))

    def setpred(self, I, a, loc):
        v = rd(I, a[0])
        st = I.st
        if isnum(v) or isinstance(v, TF):
            cs = [to_byte(v)]
        else:
            cs = T.chars(st, as_text(I, v, loc))
        if cs is None or not all(isnum(c) for c in cs):
            raise Unsupported("find_first_of with abstract set")
        s = set(cs)

        def pred(c):
            if isnum(c):
                return c in s
            return st.tsplit(c, lambda x: x in s, "find_first_of@%s" % I.here(loc))
        return pred

    def m_find_first_of(self, I, a, loc):
        return self.finder(I, self.setpred(I, a, loc), rd(I, a[1]) if len(a) > 1 else 0, loc)

    def m_find_first_not_of(self, I, a, loc):
        return self.finder(I, self.setpred(I, a, loc), rd(I, a[1]) if len(a) > 1 else 0, loc, True)

    def m_contains(self, I, a, loc):
        return B(self.m_find(I, a, loc) != (1 << 64) - 1)

    def op_eq(self, I, a, loc):
        return B(T.eq(I.st, self.t, as_text(I, a[0], loc), "==@%s" % I.here(loc)))

    def op_ne(self, I, a, loc):
        return 1 - self.op_eq(I, a, loc)

    def op_lt(self, I, a, loc):
        return B(I.st.cmp("<", T.cmp3(I.st, self.t, as_text(I, a[0], loc)), 0))

    def op_gt(self, I, a, loc):
        return B(I.st.cmp(">", T.cmp3(I.st, self.t, as_text(I, a[0], loc)), 0))

    def op_le(self, I, a, loc):
        return B(I.st.cmp("<=", T.cmp3(I.st, self.t, as_text(I, a[0], loc)), 0))

    def op_ge(self, I, a, loc):
        return B(I.st.cmp(">=", T.cmp3(I.st, self.t, as_text(I, a[0], loc)), 0))

    def conv(self, I, a, loc):
        return SvObj(self.t, self)


class StrObj(StrBase):
    def __init__(self, t=T.EMPTY):
        self.t = t
        self.dead = False
        self.gen = 0

    def copy(self, I):
        return StrObj(self.t)

    def move(self, I):
        r = StrObj(self.t)
        self.t = T.EMPTY
        self.gen += 1
        return r

    def destroy(self, I):
        self.dead = True

    def sub(self, I, t):
        return StrObj(t)

    def set(self, t):
        self.t = t
        self.gen += 1

    def at(self, I, i, loc):
        c = StrBase.at(self, I, i, loc)
        return CharRef(self, i, c.v)

    def m_push_back(self, I, a, loc):
        self.set(T.cat(I.st, self.t, T.Text([("c", to_byte(rd(I, a[0])))])))

    def m_pop_back(self, I, a, loc):
        n = self.size(I)
        if not I.st.cmp(">", n, 0, "pop_back"):
            I.ub("pop_back on an empty string", loc)
        self.set(T.sub(I.st, self.t, 0, I.st.sub(self.size(I), 1)))

    def app(self, I, a, loc):
        v = rd(I, a[0], loc)
        if len(a) == 1:
            if isnum(v) or isinstance(v, TF):
                return T.Text([("c", to_byte(v))])
            if isinstance(v, InitList):
                return T.Text([("c", to_byte(c.v)) for c in v.items])
            return as_text(I, a[0], loc)
        w = rd(I, a[1], loc)
        if isinstance(v, It):
            return it_text(I, v, w, loc)
        if isstr(v):
            t = as_text(I, a[0], loc)
            if len(a) == 2 and not isinstance(v, (StrObj, SvObj)):
                return T.sub(I.st, raw_text(I, v), 0, w)
            return T.sub(I.st, t, w, rd(I, a[2]) if len(a) > 2 else None)
        if isinstance(v, APtr):
            if isinstance(w, APtr):
                return T.sub(I.st, raw_text(I, v), 0, I.st.sub(w.i, v.i))
            return T.sub(I.st, raw_text(I, v), 0, w)
        n = I.concrete(v, "repeat count")
        return T.Text([("c", to_byte(w))] * n)

    def m_append(self, I, a, loc):
        self.set(T.cat(I.st, self.t, self.app(I, a, loc)))
        return None

    def op_iadd(self, I, a, loc):
        self.set(T.cat(I.st, self.t, self.app(I, a[:1], loc)))

    def op_assign(self, I, a, loc):
        v = rd(I, a[0], loc)
        if v is self:
            return
        self.set(self.app(I, a[:1], loc))

    def m_assign(self, I, a, loc):
        self.set(self.app(I, a, loc))

    def m_clear(self, I, a, loc):
        self.set(T.EMPTY)

    def m_reserve(self, I, a, loc):
        pass

    m_shrink_to_fit = m_reserve

    def m_capacity(self, I, a, loc):
        return I.st.sym("cap", 0, BIG, wid=True)

    def m_resize(self, I, a, loc):
        n = rd(I, a[0])
        if I.st.cmp("<=", n, self.size(I), "resize"):
            self.set(T.sub(I.st, self.t, 0, n))
        else:
            k = I.concrete(I.st.sub(n, self.size(I)), "resize")
            self.set(T.cat(I.st, self.t, T.Text([("c", to_byte(rd(I, a[1])) if len(a) > 1 else 0)] * k)))

    def m_erase(self, I, a, loc):
        off = rd(I, a[0]) if a else 0
        if isinstance(off, It):
            i = off.i
            j = rd(I, a[1]).i if len(a) > 1 else I.st.add(i, 1)
            self.set(T.cat(I.st, T.sub(I.st, self.t, 0, i), T.sub(I.st, self.t, j, None)))
            return It(self, i)
        n = rd(I, a[1]) if len(a) > 1 else None
        head = T.sub(I.st, self.t, 0, off)
        if n is None or n == (1 << 64) - 1:
            self.set(head)
        else:
            self.set(T.cat(I.st, head, T.sub(I.st, self.t, I.st.add(off, n), None)))

    def m_insert(self, I, a, loc):
        off = rd(I, a[0])
        if isinstance(off, It):
            off = off.i
        t = self.app(I, a[1:], loc)
        self.set(T.cat(I.st, T.sub(I.st, self.t, 0, off), t, T.sub(I.st, self.t, off, None)))

    def m_swap(self, I, a, loc):
        o = val(a[0])
        self.t, o.t = o.t, self.t

    def walk(self):
        return ()


class CharRef(Cell):
    """Lvalue for one character of a string."""
    __slots__ = ("so", "si")

    def __init__(self, so, si, v):
        Cell.__init__(self, v)
        self.so = so
        self.si = si


def raw_text(I, p):
    if isinstance(p, APtr):
        if isinstance(p.o, CStr):
            return T.const(p.o.b[I.concrete(p.i, "offset"):])
        if isinstance(p.o, (StrObj, SvObj)):
            return T.sub(I.st, p.o.t, p.i, None)
        if isinstance(p.o, Arr):
            return T.norm(I.st, [("c", to_byte(c.v)) for c in p.o.items[I.concrete(p.i, "offset"):]])
    if isinstance(p, CStr):
        return T.const(p.b)
    raise Unsupported("character pointer")


def it_text(I, a, b, loc):
    if not isinstance(b, It) or a.o is not b.o:
        I.ub("iterator pair from different containers", loc)
    if isinstance(a.o, (StrObj, SvObj)):
        return T.sub(I.st, a.o.t, a.i, I.st.sub(b.i, a.i))
    if isinstance(a.o, VecObj):
        i, j = I.concrete(a.i, "it"), I.concrete(b.i, "it")
        return T.norm(I.st, [("c", to_byte(c.v)) for c in a.o.items[i:j]])
    raise Unsupported("iterator range")


class SvObj(StrBase):
    def __init__(self, t=T.EMPTY, own=None):
        self.t = t
        self.own = own
        self.gen = own.gen if isinstance(own, StrObj) else 0

    def check(self, I, loc):
        o = self.own
        if isinstance(o, StrObj):
            if o.dead:
                I.ub("string_view used after its string was destroyed", loc)
            if o.gen != self.gen and not getattr(I, "lax_views", False):
                I.ub("string_view used after its string was modified", loc)

    def at(self, I, i, loc):
        self.check(I, loc)
        return StrBase.at(self, I, i, loc)

    def copy(self, I):
        r = SvObj(self.t, self.own)
        r.gen = self.gen
        return r

    def sub(self, I, t):
        r = SvObj(t, self.own)
        r.gen = self.gen
        return r

    def op_assign(self, I, a, loc):
        v = rd(I, a[0], loc)
        self.own = None
        if isinstance(v, SvObj):
            self.t, self.own, self.gen = v.t, v.own, v.gen
        elif isinstance(v, StrObj):
            self.t, self.own, self.gen = v.t, v, v.gen
        else:
            self.t = as_text(I, a[0], loc)

    def m_remove_prefix(self, I, a, loc):
        n = rd(I, a[0])
        if not I.st.cmp("<=", n, self.size(I), "remove_prefix@%s" % I.here(loc)):
            I.ub("remove_prefix past the end of the text", loc)
        self.t = T.sub(I.st, self.t, n, None)

    def m_remove_suffix(self, I, a, loc):
        n = rd(I, a[0])
        if not I.st.cmp("<=", n, self.size(I), "remove_suffix@%s" % I.here(loc)):
            I.ub("remove_suffix past the start of the text", loc)
        self.t = T.sub(I.st, self.t, 0, I.st.sub(self.size(I), n))

    # string_view iterators are plain pointers
    def frozen(self):
        f = getattr(self, "_fz", None)
        if f is None or f.t is not self.t or f.own is not self.own or f.gen != self.gen:
            f = self._fz = self.sub(None, self.t)
        return f

    def m_begin(self, I, a, loc):
        return APtr(self.frozen(), 0)

    m_cbegin = m_begin

    def m_end(self, I, a, loc):
        return APtr(self.frozen(), self.size(I))

    m_cend = m_end

    def m_data(self, I, a, loc):
        o = self.own
        if isinstance(o, StrObj) and (o.t is self.t or T.same(I.st, o.t, self.t)):
            self.check(I, loc)
            return APtr(o, 0)
        return APtr(self, 0)

    def m_swap(self, I, a, loc):
        o = val(a[0])
        self.t, self.own, self.gen, o.t, o.own, o.gen = o.t, o.own, o.gen, self.t, self.own, self.gen


# ---------------------------------------------------------------- iterators
class It(StdObj):
    def __init__(self, o, i):
        self.o = o
        self.i = i

    def copy(self, I):
        return It(self.o, self.i)

    def op_deref(self, I, a, loc):
        return self.o.item(I, self.i, loc)

    def op_arrow(self, I, a, loc):
        return Ptr(self.o.item(I, self.i, loc))

    def op_inc(self, I, a, loc):
        if a:  # postfix
            r = It(self.o, self.i)
            self.i = I.st.add(self.i, 1)
            return r
        self.i = I.st.add(self.i, 1)

    def op_dec(self, I, a, loc):
        if a:
            r = It(self.o, self.i)
            self.i = I.st.sub(self.i, 1)
            return r
        self.i = I.st.sub(self.i, 1)

    def op_iadd(self, I, a, loc):
        self.i = I.st.add(self.i, rd(I, a[0]))

    def op_isub(self, I, a, loc):
        self.i = I.st.sub(self.i, rd(I, a[0]))

    def op_index(self, I, a, loc):
        return self.o.item(I, I.st.add(self.i, rd(I, a[0])), loc)

    def op_add(self, I, a, loc):
        return It(self.o, I.st.add(self.i, rd(I, a[0])))

    def op_sub(self, I, a, loc):
        o = rd(I, a[0])
        if isinstance(o, It):
            return I.st.sub(self.i, o.i)
        return It(self.o, I.st.sub(self.i, o))

    def rel(self, I, op, a, loc):
        o = rd(I, a[0])
        if isinstance(o, It) and o.o is self.o:
            return B(I.st.cmp(op, self.i, o.i, "iterator%s@%s" % (op, I.here(loc))))
        raise Unsupported("iterator comparison")

    def op_eq(self, I, a, loc):
        return self.rel(I, "==", a, loc)

    def op_ne(self, I, a, loc):
        return self.rel(I, "!=", a, loc)

    def op_lt(self, I, a, loc):
        return self.rel(I, "<", a, loc)

    def op_gt(self, I, a, loc):
        return self.rel(I, ">", a, loc)

    def op_le(self, I, a, loc):
        return self.rel(I, "<=", a, loc)

    def op_ge(self, I, a, loc):
        return self.rel(I, ">=", a, loc)

    def op_assign(self, I, a, loc):
        o = rd(I, a[0])
        self.o, self.i = o.o, o.i

    def m_base(self, I, a, loc):
        return It(self.o, self.i)


class RIt(It):
    def copy(self, I):
        return RIt(self.o, self.i)

    def op_deref(self, I, a, loc):
        return self.o.item(I, I.st.sub(self.i, 1), loc)

    def op_inc(self, I, a, loc):
        self.i = I.st.sub(self.i, 1)


# ---------------------------------------------------------------- containers
class VecObj(StdObj):
    kind = "vector"
    base = 0        # number of elements that exist in front of the modelled ones (their values are not known)

    def __init__(self, et=None, items=None, kind="vector"):
        self.et = et
        self.items = items if items is not None else []
        self.kind = kind
        self.dead = False
        self.moved = False

    def copy(self, I):
        return VecObj(self.et, [Cell(I.copyval(c.v), self.et) for c in self.items], self.kind)

    def move(self, I):
        r = VecObj(self.et, self.items, self.kind)
        self.items = []
        return r

    def destroy(self, I):
        for c in self.items:
            I.destroy_cell(c)
        self.items = []
        self.dead = True

    def walk(self):
        return self.items

    def n(self):
        return len(self.items)

    def m_size(self, I, a, loc):
        return len(self.items) + self.base

    def m_empty(self, I, a, loc):
        return B(not self.items and not self.base)

    def item(self, I, i, loc):
        if isinstance(i, Poly) and not self.base:
            if I.st.cmp("<", i, 0, "index<0") or I.st.cmp(">=", i, len(self.items), "index>=size"):
                I.ub("element outside a %s with %d elements" % (self.kind, len(self.items)), loc)
        i = I.concrete(i, "element index", loc)
        if self.base:
            if 0 <= i < self.base:
                h = getattr(I, "virtualhook", None)
                if h:
                    h(I, self, i, loc)
                raise Unsupported("element that is not modelled")
            i -= self.base
        if i < 0 or i >= len(self.items):
            I.ub("element %d of a %s with %d elements" % (i, self.kind, len(self.items)), loc)
        return self.items[i]

    at = item

    def op_index(self, I, a, loc):
        return self.item(I, rd(I, a[0]), loc)

    def m_at(self, I, a, loc):
        i = I.concrete(rd(I, a[0]), "element index", loc)
        if i >= len(self.items) + self.base or i < 0:
            I.throw("std::out_of_range", "at", loc)
        return self.item(I, i, loc)

    def m_front(self, I, a, loc):
        return self.item(I, 0, loc)

    def m_back(self, I, a, loc):
        return self.item(I, len(self.items) - 1, loc)

    def m_data(self, I, a, loc):
        return APtr(self, 0)

    def m_begin(self, I, a, loc):
        return It(self, 0)

    m_cbegin = m_begin

    def m_end(self, I, a, loc):
        return It(self, len(self.items))

    m_cend = m_end

    def m_rbegin(self, I, a, loc):
        return RIt(self, len(self.items))

    def m_rend(self, I, a, loc):
        return RIt(self, 0)

    def newcell(self, I, v):
        return Cell(v, self.et)

    def elem(self, I, a, loc):
        """Element value from an argument of push_back/insert (cell: copy or move as typed)."""
        return take(I, a, self.et, loc)

    def grow(self, I):
        """Growing a contiguous container may move every element."""
        if self.kind != "vector" or not getattr(I, "realloc", False) or len(self.items) < getattr(self, "cap", 0):
            return
        old = self.items
        self.items = [Cell(I.moveval(c.v), self.et) for c in old]
        for c in old:
            I.destroy_cell(c)

    def m_push_back(self, I, a, loc):
        v = self.elem(I, a[0], loc)
        self.grow(I)
        self.items.append(self.newcell(I, v))

    def m_push_front(self, I, a, loc):
        self.items.insert(0, self.newcell(I, self.elem(I, a[0], loc)))

    def m_emplace_back(self, I, a, loc):
        v = make(I, self.et, a, loc)
        self.grow(I)
        c = self.newcell(I, v)
        self.items.append(c)
        return c

    def m_pop_back(self, I, a, loc):
        if not self.items:
            I.ub("pop_back on an empty container", loc)
        I.destroy_cell(self.items.pop())

    def m_pop_front(self, I, a, loc):
        if not self.items:
            I.ub("pop_front on an empty container", loc)
        I.destroy_cell(self.items.pop(0))

    def m_clear(self, I, a, loc):
        for c in self.items:
            I.destroy_cell(c)
        self.items = []

    def m_reserve(self, I, a, loc):
        n = rd(I, a[0])
        if isnum(n) and n > getattr(self, "cap", 0):
            self.grow(I)
            self.cap = n

    def m_shrink_to_fit(self, I, a, loc):
        self.cap = 0
        self.grow(I)

    def m_capacity(self, I, a, loc):
        return I.st.sym("cap", 0, BIG, wid=True)

    def m_resize(self, I, a, loc):
        n = I.concrete(rd(I, a[0]), "resize") - self.base
        if n < 0:
            raise Unsupported("element that is not modelled")
        if n > len(self.items):
            self.grow(I)
        if n > 4096:
            raise Unsupported("large resize")
        while len(self.items) > n:
            I.destroy_cell(self.items.pop())
        while len(self.items) < n:
            v = take(I, a[1], self.et, loc) if len(a) > 1 else I.default_value(self.et)
            self.items.append(self.newcell(I, v))

    def m_erase(self, I, a, loc):
        i = I.concrete(rd(I, a[0]).i, "erase")
        j = I.concrete(rd(I, a[1]).i, "erase") if len(a) > 1 else i + 1
        if not (0 <= i <= j <= len(self.items)):
            I.ub("erase outside the container", loc)
        for c in self.items[i:j]:
            I.destroy_cell(c)
        del self.items[i:j]
        return It(self, i)

    def m_insert(self, I, a, loc):
        i = I.concrete(rd(I, a[0]).i, "insert")
        x = rd(I, a[1]) if len(a) > 1 else None
        if len(a) == 3 and isinstance(x, (It, MoveIt)):
            y = rd(I, a[2])
            vs = [self.newcell(I, v) for v in range_values(I, x, y, loc)]
            self.items[i:i] = vs
        else:
            self.items.insert(i, self.newcell(I, self.elem(I, a[1], loc)))
        return It(self, i)

    def m_swap(self, I, a, loc):
        o = val(a[0])
        self.items, o.items = o.items, self.items

    def op_assign(self, I, a, loc):
        v = rd(I, a[0], loc)
        if v is self:
            return
        old = self.items
        if isinstance(v, InitList):
            self.items = [self.newcell(I, I.copyval(c.v)) for c in v.items]
        elif moving(I, a[0], loc):
            self.items = v.items
            v.items = []
        else:
            self.items = [self.newcell(I, I.copyval(c.v)) for c in v.items]
        for c in old:
            I.destroy_cell(c)

    def m_assign(self, I, a, loc):
        x, y = rd(I, a[0]), rd(I, a[1])
        if isinstance(x, It):
            self.items = [self.newcell(I, v) for v in range_values(I, x, y, loc)]
        else:
            raise Unsupported("assign")

    def op_eq(self, I, a, loc):
        o = rd(I, a[0])
        if len(o.items) != len(self.items):
            return 0
        for x, y in zip(self.items, o.items):
            if not equal(I, x, y, loc):
                return 0
        return 1


class InitList(VecObj):
    def __init__(self, items):
        VecObj.__init__(self, None, list(items), "initializer_list")

    def destroy(self, I):
        pass

    def copy(self, I):
        return self


class MoveIt(It):
    def copy(self, I):
        return MoveIt(self.o, self.i)


def range_values(I, x, y, loc):
    i, j = I.concrete(x.i, "range"), I.concrete(y.i, "range")
    if x.o is not y.o or i > j:
        I.ub("invalid iterator range", loc)
    out = []
    for k in range(i, j):
        c = x.o.item(I, k, loc)
        if isinstance(x, MoveIt):
            out.append(I.moveval(c.v))
        else:
            out.append(I.copyval(c.v))
    return out


def moving(I, a, loc):
    """Whether an argument is an rvalue (std::move or a temporary)."""
    if not isinstance(a, Cell):
        return True
    if isinstance(loc, dict):
        info = loc.get("fn") or {}
        ps = info.get("ps")
        if ps:
            p = ps[0]
            if p is not None and p.k == "r":
                return True
    return False


def take(I, a, t, loc):
    """Value of type t from an argument (copy for lvalues, move for rvalues)."""
    if not isinstance(a, Cell):
        return coerce(I, a, t, loc)
    v = rd(I, a, loc)
    if isinstance(v, (Rec, StdObj)):
        if t is not None and t.rec and not fits(I, t, v):
            return coerce(I, v, t, loc)
        return I.moveval(v) if moving(I, a, loc) else I.copyval(v)
    return coerce(I, v, t, loc)


def fits(I, t, v):
    if isinstance(v, Rec):
        return t.rec in I.p.bases(v.rid)
    if isinstance(v, PyObj):
        return True
    n = t.n
    if isinstance(v, StrObj):
        return n == "std::basic_string"
    if isinstance(v, SvObj):
        return n == "std::basic_string_view"
    if isinstance(v, (OptObj,)):
        return n == "std::optional"
    if isinstance(v, VarObj):
        return n == "std::variant"
    if isinstance(v, (UPtr,)):
        return n == "std::unique_ptr"
    if isinstance(v, (SPtr,)):
        return n == "std::shared_ptr"
    if isinstance(v, FunObj):
        return n == "std::function"
    if isinstance(v, TupObj):
        return n in ("std::pair", "std::tuple")
    if isinstance(v, VecObj):
        return n in ("std::vector", "std::deque", "sfl::segmented_vector", "sfl::small_vector", "std::array", "std::list")
    if getattr(v, "name", None) == "json":
        return n in LIBCTORS
    return True


def coerce(I, v, t, loc):
    """Implicit conversion of an already owned value to type t."""
    if t is None:
        return v
    t = t.noref() if t.isref else t
    if isinstance(v, Cell):
        v = v.v
    if t.k == "o":
        if isinstance(v, (Rec, StdObj)) and fits(I, t, v):
            return v
        return make(I, t, [v if isinstance(v, Cell) else Cell(v)], loc)
    if t.isint and (isnum(v) or isinstance(v, (TF, Poly))):
        if isinstance(v, Fraction):
            return I.float_to_int(v, t, loc)
        return I.fit(v, t, loc, conv=True)
    return v


def make(I, t, args, loc):
    """Constructs a value of type t from forwarded arguments."""
    if t.k != "o":
        if not args:
            return I.default_value(t)
        return coerce(I, rd(I, args[0], loc), t, loc)
    rec = I.p.recs.get(t.rec)
    if rec is not None and rec.get("repo"):
        if len(args) == 1:
            v = val(args[0])
            if isinstance(v, Rec) and t.rec in I.p.bases(v.rid):
                if not isinstance(args[0], Cell):
                    return v
                return I.moveval(v) if rvalue_arg(I, loc, 0, args[0]) else I.copyval(v)
        cands = []
        for m in rec.get("methods", ()):
            if m.get("ctor") and m["id"] in I.p.funcs and not m.get("cc") and not m.get("mc"):
                f = I.p.funcs[m["id"]]
                if len(f["ps"]) == len(args):
                    cands.append(f)
        if not cands:
            if not args:
                return I.default_value(t)
            raise Unsupported("no constructor of %s for forwarded arguments" % t.rec)
        f = cands[0] if len(cands) == 1 else I.pick(cands, args)
        conv = []
        for p, a in zip(f["ps"], args):
            if p["t"].isref:
                v = val(a)
                if p["t"].to.k == "o" and isinstance(v, (Rec, StdObj)) and not fits(I, p["t"].to, v) or isstr(v) and not isinstance(v, (StrObj, SvObj)) and p["t"].to.k == "o":
                    conv.append(Cell(make(I, p["t"].to, [a], loc), p["t"].to))
                else:
                    conv.append(a)
            else:
                conv.append(take(I, a, p["t"], None) if not rvalue_arg(I, loc, 0, a) else I.moveval(coerce(I, val(a), p["t"], loc)))
        return I.construct(t.rec, f, conv, loc)
    return construct_lib(I, t, args, loc)


def rvalue_arg(I, loc, i, a):
    """Is the forwarded argument an rvalue? (parameter type T&& with T not a reference)"""
    if not isinstance(a, Cell):
        return True
    if isinstance(loc, dict):
        ps = (loc.get("fn") or {}).get("ps") or []
        for p in ps:
            if p is not None and p.k == "r":
                return True
    return False


def equal(I, x, y, loc):
    a, b = val(x), val(y)
    if isinstance(a, (Rec,)):
        raise Unsupported("equality of records")
    if isinstance(a, StdObj):
        return I.truth(a.op_eq(I, [y], loc))
    return I.truth(I.compare("==", a, b, loc))


class TupObj(StdObj):
    def __init__(self, items):
        self.items = items

    def copy(self, I):
        return TupObj([c if c.t is not None and c.t.isref else Cell(I.copyval(c.v), c.t) for c in self.items])

    def move(self, I):
        return TupObj([c if c.t is not None and c.t.isref else Cell(I.moveval(c.v), c.t) for c in self.items])

    def destroy(self, I):
        for c in self.items:
            I.destroy_cell(c)

    def walk(self):
        return self.items

    def field(self, I, n):
        return self.items[{"first": 0, "second": 1}[n]] if n in ("first", "second") else None

    def op_assign(self, I, a, loc):
        o = val(a[0])
        for x, y in zip(self.items, o.items):
            I.assigncell(x, y, moving(I, a[0], loc))

    def op_eq(self, I, a, loc):
        o = val(a[0])
        return B(all(equal(I, x, y, loc) for x, y in zip(self.items, o.items)))


class OptObj(StdObj):
    def __init__(self, et, cell=None):
        self.et = et
        self.c = cell

    def copy(self, I):
        return OptObj(self.et, Cell(I.copyval(self.c.v), self.et) if self.c else None)

    def move(self, I):
        return OptObj(self.et, Cell(I.moveval(self.c.v), self.et) if self.c else None)

    def destroy(self, I):
        if self.c:
            I.destroy_cell(self.c)

    def walk(self):
        return [self.c] if self.c else []

    def op_bool(self, I, a, loc):
        return B(self.c is not None)

    m_has_value = op_bool

    def conv(self, I, a, loc):
        return B(self.c is not None)

    def op_deref(self, I, a, loc):
        if self.c is None:
            I.ub("dereference of an empty optional", loc)
        return self.c

    def op_arrow(self, I, a, loc):
        return Ptr(self.op_deref(I, a, loc))

    def m_value(self, I, a, loc):
        if self.c is None:
            I.throw("std::bad_optional_access", "", loc)
        return self.c

    def m_value_or(self, I, a, loc):
        if self.c is not None:
            return I.copyval(self.c.v)
        return take(I, a[0], self.et, loc)

    def m_reset(self, I, a, loc):
        if self.c:
            I.destroy_cell(self.c)
        self.c = None

    def m_emplace(self, I, a, loc):
        self.m_reset(I, a, loc)
        self.c = Cell(make(I, self.et, a, loc), self.et)
        return self.c

    def op_assign(self, I, a, loc):
        v = val(a[0])
        if v is self:
            return
        if isinstance(v, LibValue) and v.__class__ is NullOpt:
            self.m_reset(I, [], loc)
        elif isinstance(v, OptObj):
            n = None if v.c is None else Cell(I.moveval(v.c.v) if moving(I, a[0], loc) else I.copyval(v.c.v), self.et)
            self.m_reset(I, [], loc)
            self.c = n
        else:
            n = Cell(take(I, a[0], self.et, loc), self.et)
            self.m_reset(I, [], loc)
            self.c = n

    def op_eq(self, I, a, loc):
        o = val(a[0])
        if isinstance(o, NullOpt):
            return B(self.c is None)
        if isinstance(o, OptObj):
            if (o.c is None) != (self.c is None):
                return 0
            return 1 if o.c is None else B(equal(I, self.c, o.c, loc))
        if self.c is None:
            return 0
        return B(equal(I, self.c, a[0], loc))

    def op_ne(self, I, a, loc):
        return 1 - self.op_eq(I, a, loc)


class NullOpt(LibValue):
    pass


class VarObj(StdObj):
    def __init__(self, types, idx=0, cell=None):
        self.types = types
        self.idx = idx
        self.c = cell if cell is not None else Cell(0, types[0] if types else None)

    def copy(self, I):
        return VarObj(self.types, self.idx, Cell(I.copyval(self.c.v), self.c.t))

    def move(self, I):
        return VarObj(self.types, self.idx, Cell(I.moveval(self.c.v), self.c.t))

    def destroy(self, I):
        I.destroy_val(self.c.v)

    def walk(self):
        return [self.c]

    def alt(self, I, a, loc):
        """Index of the alternative a converting construction selects."""
        v = val(a)
        t = arg_type(I, a)
        if t is not None:
            t = t.noref()
            for i, x in enumerate(self.types):
                if key(x) == key(t):
                    return i
        # by value
        for i, x in enumerate(self.types):
            if x.k == "o" and isinstance(v, Rec) and x.rec == v.rid:
                return i
            if x.n == "std::basic_string" and (isinstance(v, StrObj)):
                return i
            if x.n == "std::basic_string_view" and isinstance(v, SvObj):
                return i
        if isstr(v):
            for i, x in enumerate(self.types):
                if x.n in ("std::basic_string", "std::basic_string_view"):
                    return i
        if t is not None and t.isbool:
            for i, x in enumerate(self.types):
                if x.isbool:
                    return i
        if t is not None and t.isint:
            c = [i for i, x in enumerate(self.types) if x.int and not x.isbool and x.w >= t.w and (x.s or not t.s)]
            if len(c) >= 1:
                return c[0]
        if t is not None and t.flt:
            c = [i for i, x in enumerate(self.types) if x.flt]
            if c:
                return c[0]
        if isinstance(v, Rec):
            for i, x in enumerate(self.types):
                if x.k == "o" and x.rec in I.p.bases(v.rid):
                    return i
        if isinstance(v, StdObj):
            for i, x in enumerate(self.types):
                if x.k == "o" and fits(I, x, v):
                    return i
        raise Unsupported("variant alternative for %r at %s" % (t, I.here(loc)))

    def op_assign(self, I, a, loc):
        v = val(a[0])
        if v is self:
            if isinstance(self.c.v, Rec):
                I.assigncell(self.c, v.c, moving(I, a[0], loc))
            return
        if isinstance(v, VarObj) and len(v.types) == len(self.types):
            mv = moving(I, a[0], loc)
            if self.idx == v.idx and isinstance(self.c.v, Rec):
                # same alternative: assignment operator of the alternative
                I.assigncell(self.c, v.c, mv)
                return
            nv = I.moveval(v.c.v) if mv else I.copyval(v.c.v)
            I.destroy_val(self.c.v)
            self.idx = v.idx
            self.c = Cell(nv, v.c.t)
            return
        i = self.alt(I, a[0], loc)
        nv = take(I, a[0], self.types[i], loc)
        if self.idx == i and isinstance(self.c.v, Rec):
            I.assigncell(self.c, Cell(nv), True)
            return
        I.destroy_val(self.c.v)
        self.idx = i
        self.c = Cell(nv, self.types[i])

    def m_index(self, I, a, loc):
        return self.idx

    def m_valueless_by_exception(self, I, a, loc):
        return 0

    def m_emplace(self, I, a, loc):
        ta = (loc.get("fn") or {}).get("ta") or []
        t = ta[0] if ta else None
        if isinstance(t, int):
            i = t
        else:
            i = [j for j, x in enumerate(self.types) if key(x) == key(t)][0]
        nv = make(I, self.types[i], a, loc)
        I.destroy_val(self.c.v)
        self.idx = i
        self.c = Cell(nv, self.types[i])
        return self.c

    def op_eq(self, I, a, loc):
        o = val(a[0])
        if o.idx != self.idx:
            return 0
        if self.types[self.idx].n == "std::monostate":
            return 1
        return B(equal(I, self.c, o.c, loc))


class Mono(LibValue):
    def op_eq(self, I, a, loc):
        return 1


def key(t):
    if t is None:
        return None
    t = t.noref()
    k = t.key or ""
    return k[2:] if k.startswith("c ") else k


def arg_type(I, a):
    if isinstance(a, Cell):
        if a.t is not None:
            return a.t
        v = a.v
    else:
        v = a
    return val_type(I, v)


def val_type(I, v):
    tys = I.p.tys
    if isinstance(v, Rec):
        return tys.get(v.rid) or tys.get("c " + v.rid)
    if isinstance(v, StrObj):
        return next((t for t in tys.values() if t.n == "std::basic_string" and t.k == "o"), None)
    if isinstance(v, SvObj):
        return next((t for t in tys.values() if t.n == "std::basic_string_view" and t.k == "o"), None)
    return None


class Ctl:
    def __init__(self, cell):
        self.n = 1
        self.c = cell
        if isinstance(cell.v, Rec):
            cell.v.ctl = self


class UPtr(StdObj):
    def __init__(self, p=NULL, et=None):
        self.p = p
        self.et = et

    def copy(self, I):
        raise Unsupported("copy of unique_ptr")

    def move(self, I):
        r = UPtr(self.p, self.et)
        self.p = NULL
        return r

    def destroy(self, I):
        p, self.p = self.p, NULL
        delete(I, p)

    def walk(self):
        return [self.p.c] if isinstance(self.p, Ptr) else []

    def op_bool(self, I, a, loc):
        return B(self.p is not NULL)

    def conv(self, I, a, loc):
        return B(self.p is not NULL)

    def m_get(self, I, a, loc):
        return self.p

    def op_deref(self, I, a, loc):
        if self.p is NULL:
            I.ub("dereference of an empty unique_ptr", loc)
        return self.p.c

    def op_arrow(self, I, a, loc):
        if self.p is NULL:
            I.ub("dereference of an empty unique_ptr", loc)
        return self.p

    def m_release(self, I, a, loc):
        p, self.p = self.p, NULL
        return p

    def m_reset(self, I, a, loc):
        old = self.p
        self.p = rd(I, a[0]) if a else NULL
        delete(I, old)

    def m_swap(self, I, a, loc):
        o = val(a[0])
        self.p, o.p = o.p, self.p

    def op_assign(self, I, a, loc):
        v = val(a[0])
        if v is self:
            return
        old = self.p
        if v is NULL:
            self.p = NULL
        else:
            self.p = v.p
            v.p = NULL
        delete(I, old)

    def op_eq(self, I, a, loc):
        v = val(a[0])
        q = v.p if isinstance(v, (UPtr, SPtr)) else v
        return I.compare("==", self.p, q, loc)

    def op_ne(self, I, a, loc):
        return 1 - self.op_eq(I, a, loc)


def delete(I, p):
    if isinstance(p, Ptr):
        if p.c.dead:
            I.ub("object deleted twice", None)
        I.destroy_cell(p.c)


class SPtr(StdObj):
    def __init__(self, p=NULL, ctl=None):
        self.p = p
        self.ctl = ctl

    def copy(self, I):
        if self.ctl:
            self.ctl.n += 1
        return SPtr(self.p, self.ctl)

    def move(self, I):
        r = SPtr(self.p, self.ctl)
        self.p, self.ctl = NULL, None
        return r

    def destroy(self, I):
        c, self.ctl = self.ctl, None
        self.p = NULL
        if c:
            c.n -= 1
            if c.n == 0:
                I.destroy_cell(c.c)

    def walk(self):
        return [self.p.c] if isinstance(self.p, Ptr) else []

    op_bool = UPtr.op_bool
    conv = UPtr.conv
    m_get = UPtr.m_get
    op_eq = UPtr.op_eq
    op_ne = UPtr.op_ne

    def op_deref(self, I, a, loc):
        if self.p is NULL:
            I.ub("dereference of an empty shared_ptr", loc)
        return self.p.c

    def op_arrow(self, I, a, loc):
        if self.p is NULL:
            I.ub("dereference of an empty shared_ptr", loc)
        return self.p

    def m_reset(self, I, a, loc):
        self.destroy(I)

    def m_use_count(self, I, a, loc):
        return self.ctl.n if self.ctl else 0

    def op_assign(self, I, a, loc):
        v = val(a[0])
        if v is self:
            return
        if v is NULL:
            self.destroy(I)
            return
        n = v.move(I) if moving(I, a[0], loc) else v.copy(I)
        self.destroy(I)
        self.p, self.ctl = n.p, n.ctl


class FunObj(StdObj):
    def __init__(self, f=None, sig=None):
        self.f = f  # Cell holding the callable, or None

    def copy(self, I):
        return FunObj(Cell(I.copyval(self.f.v)) if self.f else None)

    def move(self, I):
        r = FunObj(self.f)
        self.f = None
        return r

    def destroy(self, I):
        if self.f:
            I.destroy_val(self.f.v)
        self.f = None

    def walk(self):
        return [self.f] if self.f else []

    def op_bool(self, I, a, loc):
        return B(self.f is not None)

    conv = op_bool

    def invoke(self, I, args, loc):
        if self.f is None:
            I.throw("std::bad_function_call", "", loc)
        return I.call_value(self.f, args, loc)

    def op_call(self, I, a, loc):
        return self.invoke(I, a, loc)

    def op_assign(self, I, a, loc):
        v = val(a[0])
        if v is self:
            return
        if v is NULL:
            self.f = None
        elif isinstance(v, FunObj):
            n = v.move(I) if moving(I, a[0], loc) else v.copy(I)
            self.f = n.f
        else:
            self.f = Cell(take(I, a[0], None, loc))

    def op_eq(self, I, a, loc):
        return B(self.f is None)

    def op_ne(self, I, a, loc):
        return B(self.f is not None)


class MapObj(StdObj):
    """map / unordered_map: list of (key, value) pairs with the declared comparison."""

    def __init__(self, kt, vt, t, kind):
        self.kt = kt
        self.vt = vt
        self.t = t
        self.kind = kind
        self.items = []
        self.sorted = 0

    def copy(self, I):
        r = MapObj(self.kt, self.vt, self.t, self.kind)
        r.items = [Cell(c.v.copy(I)) for c in self.items]
        return r

    def move(self, I):
        r = MapObj(self.kt, self.vt, self.t, self.kind)
        r.items, self.items = self.items, []
        return r

    def destroy(self, I):
        for c in self.items:
            I.destroy_cell(c)
        self.items, self.sorted = [], 0

    def walk(self):
        return self.items

    def cmpty(self):
        a = self.t.a
        if self.kind == "map":
            return a[2] if len(a) > 2 else None
        return a[3] if len(a) > 3 else None

    def keyeq(self, I, a, b, loc):
        """a, b: cells"""
        ct = self.cmpty()
        if ct is not None and ct.k == "o" and I.p.recs.get(ct.rec, {}).get("repo"):
            f = Rec(ct.rec)
            args = [keyarg(I, x) for x in (a, b)]
            if self.kind == "map":
                if I.truth(val(I.call_value(f, args, loc))):
                    return False
                return not I.truth(val(I.call_value(f, args[::-1], loc)))
            return I.truth(val(I.call_value(f, args, loc)))
        x, y = val(a), val(b)
        if isstr(x) and isstr(y):
            if isinstance(x, (CStr, APtr)) and isinstance(y, (CStr, APtr)) and self.kt is not None and self.kt.k == "p":
                o1 = x.o if isinstance(x, APtr) else x
                o2 = y.o if isinstance(y, APtr) else y
                return o1 is o2
            return T.eq(I.st, as_text(I, a), as_text(I, b), "key==@%s" % I.here(loc))
        return equal(I, a, b, loc)

    def op_eq(self, I, a, loc):
        o = val(a[0])
        if not isinstance(o, MapObj):
            raise Unsupported("comparison of a map")
        if len(self.items) != len(o.items):
            return 0
        for i, c in enumerate(self.items):
            j = i if self.kind == "map" else o.lookup(I, c.v.items[0], loc)
            if j is None:
                return 0
            for x, y in zip(c.v.items, o.items[j].v.items):
                if not equal(I, x, y, loc):
                    return 0
        return 1

    def lookup(self, I, k, loc):
        for i, c in enumerate(self.items):
            if self.keyeq(I, c.v.items[0], k, loc):
                return i
        return None

    def m_find(self, I, a, loc):
        k = a[0] if isinstance(a[0], Cell) else Cell(a[0])
        i = self.lookup(I, k, loc)
        return MapIt(self, self.items[i] if i is not None else None)

    def m_count(self, I, a, loc):
        k = a[0] if isinstance(a[0], Cell) else Cell(a[0])
        return B(self.lookup(I, k, loc) is not None)

    m_contains = m_count

    def m_at(self, I, a, loc):
        i = self.lookup(I, a[0] if isinstance(a[0], Cell) else Cell(a[0]), loc)
        if i is None:
            I.throw("std::out_of_range", "at", loc)
        return self.items[i].v.items[1]

    def less(self, I, a, b, loc):
        ct = self.cmpty()
        if ct is not None and ct.k == "o" and I.p.recs.get(ct.rec, {}).get("repo"):
            return I.truth(val(I.call_value(Rec(ct.rec), [keyarg(I, x) for x in (a, b)], loc)))
        x, y = val(a), val(b)
        if isstr(x) and isstr(y):
            return I.st.cmp("<", T.cmp3(I.st, as_text(I, a), as_text(I, b)), 0)
        if isnum(x) and isnum(y) and isinstance(x, int) and isinstance(y, int):
            return x < y
        raise Unsupported("order of keys")

    def order(self, I, loc):
        """A map keeps its entries in key order; the list is sorted when it is looked at."""
        if self.kind != "map" or self.sorted == len(self.items):
            return
        for i in range(max(1, self.sorted), len(self.items)):
            c = self.items[i]
            j = i
            while j > 0 and self.less(I, c.v.items[0], self.items[j - 1].v.items[0], loc):
                j -= 1
            if j != i:
                self.items.insert(j, self.items.pop(i))
        self.sorted = len(self.items)

    def bound(self, I, a, loc, upper):
        if self.kind != "map":
            raise Unsupported("bound of an unordered map")
        self.order(I, loc)
        k = a[0] if isinstance(a[0], Cell) else Cell(a[0])
        for c in self.items:
            if upper:
                if self.less(I, k, c.v.items[0], loc):
                    return MapIt(self, c)
            elif not self.less(I, c.v.items[0], k, loc):
                return MapIt(self, c)
        return MapIt(self, None)

    def m_lower_bound(self, I, a, loc):
        return self.bound(I, a, loc, False)

    def m_upper_bound(self, I, a, loc):
        return self.bound(I, a, loc, True)

    def m_begin(self, I, a, loc):
        self.order(I, loc)
        return MapIt(self, self.items[0] if self.items else None)

    m_cbegin = m_begin

    def m_end(self, I, a, loc):
        return MapIt(self, None)

    m_cend = m_end

    def m_size(self, I, a, loc):
        return len(self.items)

    def m_empty(self, I, a, loc):
        return B(not self.items)

    def m_clear(self, I, a, loc):
        self.destroy(I)

    def m_reserve(self, I, a, loc):
        pass

    def add(self, I, k, v):
        c = Cell(TupObj([Cell(k, self.kt), Cell(v, self.vt)]))
        self.items.append(c)
        return c

    def op_index(self, I, a, loc):
        k = a[0] if isinstance(a[0], Cell) else Cell(a[0])
        i = self.lookup(I, k, loc)
        if i is None:
            kv = take(I, a[0], self.kt, loc)
            c = self.add(I, kv, I.default_value(self.vt))
            return c.v.items[1]
        return self.items[i].v.items[1]

    def pairarg(self, I, a, loc):
        if len(a) == 1:
            v = val(a[0])
            mv = moving(I, a[0], loc)
            k = v.items[0]
            x = v.items[1]
            return (coerce(I, I.copyval(k.v), self.kt, loc), coerce(I, I.moveval(x.v) if mv else I.copyval(x.v), self.vt, loc))
        return (make(I, self.kt, a[:1], None), make(I, self.vt, a[1:2], loc))

    def m_emplace(self, I, a, loc):
        k, v = self.pairarg(I, a, loc)
        i = self.lookup(I, Cell(k, self.kt), loc)
        if i is not None:
            I.destroy_val(v)
            return TupObj([Cell(MapIt(self, self.items[i])), Cell(0)])
        return TupObj([Cell(MapIt(self, self.add(I, k, v))), Cell(1)])

    def m_insert(self, I, a, loc):
        if len(a) == 2 and isinstance(val(a[0]), It):
            x, y = val(a[0]), val(a[1])
            for k in range(I.concrete(x.i, "insert"), I.concrete(y.i, "insert")):
                self.m_insert(I, [x.o.item(I, k, loc)], None)
            return None
        return self.m_emplace(I, a, loc)

    def m_try_emplace(self, I, a, loc):
        k = a[0] if isinstance(a[0], Cell) else Cell(a[0])
        i = self.lookup(I, k, loc)
        if i is not None:
            return TupObj([Cell(MapIt(self, self.items[i])), Cell(0)])
        kv = take(I, a[0], self.kt, None)
        v = make(I, self.vt, a[1:], loc)
        return TupObj([Cell(MapIt(self, self.add(I, kv, v))), Cell(1)])

    def m_insert_or_assign(self, I, a, loc):
        k = a[0] if isinstance(a[0], Cell) else Cell(a[0])
        i = self.lookup(I, k, loc)
        v = take(I, a[1], self.vt, None)
        if i is not None:
            I.assigncell(self.items[i].v.items[1], Cell(v), True)
            return TupObj([Cell(MapIt(self, self.items[i])), Cell(0)])
        kv = take(I, a[0], self.kt, None)
        return TupObj([Cell(MapIt(self, self.add(I, kv, v))), Cell(1)])

    def m_erase(self, I, a, loc):
        v = val(a[0])
        if isinstance(v, MapIt):
            if v.c is None:
                I.ub("erase of the end iterator", loc)
            i = self.items.index(v.c)
            I.destroy_cell(self.items.pop(i))
            self.sorted -= i < self.sorted
            return MapIt(self, self.items[i] if i < len(self.items) else None)
        i = self.lookup(I, a[0] if isinstance(a[0], Cell) else Cell(a[0]), loc)
        if i is None:
            return 0
        I.destroy_cell(self.items.pop(i))
        self.sorted -= i < self.sorted
        return 1

    def op_assign(self, I, a, loc):
        v = val(a[0])
        if v is self:
            return
        if isinstance(v, InitList):
            self.items = []
            for c in v.items:
                self.m_insert(I, [c], None)
            return
        n = v.move(I) if moving(I, a[0], loc) else v.copy(I)
        self.destroy(I)
        self.items, self.sorted = n.items, 0

    def m_swap(self, I, a, loc):
        o = val(a[0])
        self.items, o.items = o.items, self.items


def keyarg(I, c):
    v = c.v
    if isinstance(v, (CStr, APtr)):
        return Cell(SvObj(as_text(I, c)))
    if isinstance(v, StrObj):
        return c
    return c


class MapIt(StdObj):
    def __init__(self, o, c):
        self.o = o
        self.c = c

    def copy(self, I):
        return MapIt(self.o, self.c)

    def op_deref(self, I, a, loc):
        if self.c is None:
            I.ub("dereference of the end iterator", loc)
        if self.c.dead:
            I.ub("dereference of an iterator to an erased element", loc)
        return self.c

    def op_arrow(self, I, a, loc):
        return Ptr(self.op_deref(I, a, loc))

    def op_dec(self, I, a, loc):
        r = MapIt(self.o, self.c)
        self.o.order(I, loc)
        i = len(self.o.items) if self.c is None else self.o.items.index(self.c)
        if i == 0 or self.o.kind != "map":
            I.ub("decrement of the begin iterator", loc)
        self.c = self.o.items[i - 1]
        return r if a else None

    def op_inc(self, I, a, loc):
        r = MapIt(self.o, self.c)
        self.o.order(I, loc)
        if self.c is None:
            I.ub("increment of the end iterator", loc)
        i = self.o.items.index(self.c)
        self.c = self.o.items[i + 1] if i + 1 < len(self.o.items) else None
        return r if a else None

    def op_eq(self, I, a, loc):
        return B(val(a[0]).c is self.c)

    def op_ne(self, I, a, loc):
        return B(val(a[0]).c is not self.c)

    def op_assign(self, I, a, loc):
        o = val(a[0])
        self.o, self.c = o.o, o.c


class AtomicObj(StdObj):
    def __init__(self, t, v=0):
        self.t = t
        self.c = Cell(v, t)

    def m_load(self, I, a, loc):
        return self.c.v

    def conv(self, I, a, loc):
        return self.c.v

    def m_store(self, I, a, loc):
        self.c.v = rd(I, a[0])

    def op_assign(self, I, a, loc):
        self.c.v = rd(I, a[0])
        return self.c.v

    def op_inc(self, I, a, loc):
        o = self.c.v
        self.c.v = I.fit(I.st.add(o, 1), self.t, loc, conv=True)
        return o if a else self.c.v

    def op_dec(self, I, a, loc):
        o = self.c.v
        self.c.v = I.fit(I.st.sub(o, 1), self.t, loc, conv=True)
        return o if a else self.c.v

    def op_iadd(self, I, a, loc):
        self.c.v = I.fit(I.st.add(self.c.v, rd(I, a[0])), self.t, loc, conv=True)
        return self.c.v

    def m_fetch_add(self, I, a, loc):
        o = self.c.v
        self.c.v = I.fit(I.st.add(o, rd(I, a[0])), self.t, loc, conv=True)
        return o

    def m_exchange(self, I, a, loc):
        o = self.c.v
        self.c.v = rd(I, a[0])
        return o

    def copy(self, I):
        return AtomicObj(self.t, self.c.v)

    def walk(self):
        return [self.c]


class MutexObj(StdObj):
    def __init__(self, kind):
        self.kind = kind
        self.excl = 0
        self.shared = 0

    def m_lock(self, I, a, loc):
        ev(I, "acquire", self, loc)
        if self.excl or self.shared:
            I.ub("lock acquired while already held by the same thread (deadlock)", loc)
        self.excl = 1
        ev(I, "lock", self, loc)

    def m_lock_shared(self, I, a, loc):
        ev(I, "acquire", self, loc)
        if self.excl or self.shared:
            I.ub("lock acquired while already held by the same thread (deadlock)", loc)
        self.shared += 1
        ev(I, "lock_shared", self, loc)

    def m_unlock(self, I, a, loc):
        if not self.excl:
            I.ub("unlock of a lock that is not held", loc)
        self.excl = 0
        ev(I, "unlock", self, loc)

    def m_unlock_shared(self, I, a, loc):
        if not self.shared:
            I.ub("unlock of a lock that is not held", loc)
        self.shared -= 1
        ev(I, "unlock_shared", self, loc)

    def m_try_lock(self, I, a, loc):
        if self.excl or self.shared:
            I.ub("lock acquired while already held by the same thread (deadlock)", loc)
        if I.st.choose(2, "another thread holds the lock"):
            return 0
        self.m_lock(I, a, loc)
        return 1

    def m_try_lock_shared(self, I, a, loc):
        if I.st.choose(2, "another thread holds the lock"):
            return 0
        self.m_lock_shared(I, a, loc)
        return 1


def ev(I, kind, obj, loc):
    h = getattr(I, "lockhook", None)
    if h:
        h(I, kind, obj, loc)


class LockObj(StdObj):
    """unique_lock, shared_lock, lock_guard, scoped_lock"""

    def __init__(self, kind, mx=()):
        self.kind = kind
        self.mx = list(mx)
        self.owned = False

    def m_lock(self, I, a, loc):
        if self.owned:
            I.throw("std::system_error", "already owned", loc)
        for m in self.mx:
            if self.kind == "shared":
                m.m_lock_shared(I, [], loc)
            else:
                m.m_lock(I, [], loc)
        self.owned = True

    def m_unlock(self, I, a, loc):
        if not self.owned:
            I.throw("std::system_error", "not owned", loc)
        for m in self.mx:
            if self.kind == "shared":
                m.m_unlock_shared(I, [], loc)
            else:
                m.m_unlock(I, [], loc)
        self.owned = False

    def m_try_lock(self, I, a, loc):
        if self.owned:
            I.throw("std::system_error", "already owned", loc)
        for i, m in enumerate(self.mx):
            if not (m.m_try_lock_shared if self.kind == "shared" else m.m_try_lock)(I, [], loc):
                for o in self.mx[:i]:
                    (o.m_unlock_shared if self.kind == "shared" else o.m_unlock)(I, [], loc)
                return 0
        self.owned = True
        return 1

    def m_owns_lock(self, I, a, loc):
        return B(self.owned)

    op_bool = m_owns_lock
    conv = m_owns_lock

    def m_release(self, I, a, loc):
        self.owned = False

    def destroy(self, I):
        if self.owned:
            self.m_unlock(I, [], None)

    def move(self, I):
        r = LockObj(self.kind, self.mx)
        r.owned, self.owned, self.mx = self.owned, False, []
        return r


class Opaque(LibValue):
    """Library object without a model beyond identity."""

    def __init__(self, name, data=None):
        self.name = name
        self.data = data

    def copy(self, I):
        return self


# ---------------------------------------------------------------- construction
SEQ = {"std::vector": "vector", "std::deque": "deque", "sfl::segmented_vector": "segmented_vector", "sfl::small_vector": "small_vector",
       "std::list": "list", "std::array": "array"}


LIBCTORS = {}


def default(I, t):
    n = t.n
    if n in LIBCTORS:
        return LIBCTORS[n](I, t, [], None)
    h = getattr(I, "libdefaults", {}).get(n)
    if h is not None:
        return h(I, t)
    if n == "std::basic_string":
        return StrObj()
    if n == "std::basic_string_view":
        return SvObj()
    if n == "std::array":
        return VecObj(t.a[0], [Cell(I.default_value(t.a[0]), t.a[0]) for _ in range(t.a[1])], "array")
    if n in SEQ:
        return VecObj(t.a[0], [], SEQ[n])
    if n == "std::optional":
        return OptObj(t.a[0])
    if n == "std::variant":
        types = list(t.a[0]) if t.a and isinstance(t.a[0], tuple) else list(t.a)
        v = VarObj(types)
        v.c = Cell(I.default_value(types[0]), types[0])
        return v
    if n in ("std::pair", "std::tuple"):
        ts = t.a[0] if n == "std::tuple" and t.a and isinstance(t.a[0], tuple) else t.a
        return TupObj([Cell(I.default_value(x), x) for x in ts])
    if n == "std::unique_ptr":
        return UPtr(NULL, t.a[0])
    if n == "std::shared_ptr" or n == "std::weak_ptr":
        return SPtr()
    if n == "std::function":
        return FunObj()
    if n in ("std::map", "std::unordered_map"):
        return MapObj(t.a[0], t.a[1], t, "map" if n == "std::map" else "umap")
    if n == "std::atomic":
        return AtomicObj(t.a[0], 0)
    if n in ("std::mutex", "std::shared_mutex", "std::recursive_mutex"):
        return MutexObj(n)
    if n in ("std::unique_lock",):
        return LockObj("excl")
    if n == "std::shared_lock":
        return LockObj("shared")
    if n == "std::monostate":
        return Mono()
    if n == "std::nullopt_t":
        return NullOpt()
    if n in EXC_NAMES:
        return LibExc(n)
    return Opaque(n)


from .interp import EXC
EXC_NAMES = set(EXC)


def construct(I, t, e, args):
    """Constructor expression of a library class."""
    return construct_lib(I, t, args, e)


def construct_lib(I, t, args, loc):
    n = t.n
    h = getattr(I, "libctors", {}).get(n) or LIBCTORS.get(n)
    if h is not None:
        return h(I, t, args, loc)
    # allocator arguments and the like
    args = [a for a in args if not (isinstance(val(a), Opaque) and val(a).name in ("std::allocator", "std::hash", "std::equal_to", "std::less"))]
    if not args:
        return default(I, t)
    v0 = rd(I, args[0], loc)
    if n == "std::basic_string":
        if len(args) == 1 and isinstance(v0, StrObj):
            return v0.copy(I) if isinstance(args[0], Cell) and not moving(I, args[0], loc) else v0.move(I)
        return StrObj(StrObj().app(I, args, loc))
    if n == "std::basic_string_view":
        if isinstance(v0, SvObj):
            return v0.copy(I)
        if isinstance(v0, StrObj):
            return SvObj(v0.t, v0)
        if len(args) == 2:
            w = rd(I, args[1])
            if isinstance(v0, It):
                r = SvObj(it_text(I, v0, w, loc), v0.o if isinstance(v0.o, StrObj) else getattr(v0.o, "own", None))
                return r
            return SvObj(T.sub(I.st, raw_text(I, v0), 0, w), v0.o if isinstance(v0, APtr) and isinstance(v0.o, StrObj) else None)
        return SvObj(as_text(I, args[0], loc), v0.o if isinstance(v0, APtr) and isinstance(v0.o, StrObj) else None)
    if n in SEQ:
        et = t.a[0]
        if isinstance(v0, InitList):
            return VecObj(et, [Cell(I.copyval(c.v), et) for c in v0.items], SEQ[n])
        if isinstance(v0, VecObj) and len(args) == 1:
            r = v0.move(I) if moving(I, args[0], loc) else v0.copy(I)
            r.kind = SEQ[n]
            r.et = et
            return r
        if len(args) == 2 and isinstance(v0, It):
            return VecObj(et, [Cell(coerce(I, x, et, loc), et) for x in range_values(I, v0, rd(I, args[1]), loc)], SEQ[n])
        k = I.concrete(v0, "container size")
        if k > 4096:
            raise Unsupported("large container")
        if len(args) == 2:
            return VecObj(et, [Cell(I.copyval(coerce(I, val(args[1]), et, loc)), et) for _ in range(k)], SEQ[n])
        return VecObj(et, [Cell(I.default_value(et), et) for _ in range(k)], SEQ[n])
    if n == "std::optional":
        et = t.a[0]
        if isinstance(v0, NullOpt):
            return OptObj(et)
        if isinstance(v0, OptObj):
            if v0.c is None:
                return OptObj(et)
            return OptObj(et, Cell(coerce(I, I.moveval(v0.c.v) if moving(I, args[0], loc) else I.copyval(v0.c.v), et, loc), et))
        if isinstance(v0, Opaque) and v0.name == "std::in_place_t":
            return OptObj(et, Cell(make(I, et, args[1:], loc), et))
        return OptObj(et, Cell(take(I, args[0], et, loc), et))
    if n == "std::variant":
        d = default_var(t)
        if isinstance(v0, VarObj) and len(v0.types) == len(d.types):
            return v0.move(I) if moving(I, args[0], loc) else v0.copy(I)
        i = d.alt(I, args[0] if isinstance(args[0], Cell) else typed(args[0], loc), loc)
        d.idx = i
        d.c = Cell(take(I, args[0], d.types[i], loc), d.types[i])
        return d
    if n in ("std::pair", "std::tuple"):
        ts = t.a[0] if n == "std::tuple" and t.a and isinstance(t.a[0], tuple) else t.a
        if len(args) == 1 and isinstance(v0, TupObj) and len(ts) == len(v0.items):
            mv = moving(I, args[0], loc)
            return TupObj([Cell(coerce(I, I.moveval(c.v) if mv else I.copyval(c.v), x, loc), x) for c, x in zip(v0.items, ts)])
        out = []
        for a, x in zip(args, ts):
            if x is not None and x.isref:
                out.append(a if isinstance(a, Cell) else Cell(a))
            else:
                out.append(Cell(take_any(I, a, x, loc), x))
        return TupObj(out)
    if n == "std::unique_ptr":
        if v0 is NULL:
            return UPtr(NULL, t.a[0])
        if isinstance(v0, UPtr):
            r = v0.move(I)
            r.et = t.a[0]
            return r
        return UPtr(v0, t.a[0])
    if n in ("std::shared_ptr",):
        if v0 is NULL:
            return SPtr()
        if isinstance(v0, SPtr):
            return v0.move(I) if moving(I, args[0], loc) else v0.copy(I)
        if isinstance(v0, UPtr):
            p = v0.p
            v0.p = NULL
            return SPtr(p, Ctl(p.c)) if p is not NULL else SPtr()
        return SPtr(v0, Ctl(v0.c))
    if n == "std::function":
        if v0 is NULL:
            return FunObj()
        if isinstance(v0, FunObj):
            return v0.move(I) if moving(I, args[0], loc) else v0.copy(I)
        if isinstance(args[0], Cell) and not moving(I, args[0], loc):
            return FunObj(Cell(I.copyval(v0)))
        return FunObj(Cell(I.moveval(v0) if isinstance(args[0], Cell) else v0))
    if n in ("std::map", "std::unordered_map"):
        m = MapObj(t.a[0], t.a[1], t, "map" if n == "std::map" else "umap")
        if isinstance(v0, MapObj):
            return v0.move(I) if moving(I, args[0], loc) else v0.copy(I)
        if isinstance(v0, InitList):
            for c in v0.items:
                m.add(I, I.copyval(c.v.items[0].v), I.copyval(c.v.items[1].v))
            return m
        if isnum(v0):
            return m
        raise Unsupported("map constructor")
    if n == "std::atomic":
        return AtomicObj(t.a[0], v0)
    if n in ("std::unique_lock", "std::shared_lock", "std::lock_guard", "std::scoped_lock"):
        if isinstance(v0, LockObj):
            return v0.move(I)
        mx = [val(a) for a in args if isinstance(val(a), MutexObj)]
        lk = LockObj("shared" if n == "std::shared_lock" else "excl", mx)
        tags = [val(a).name for a in args if isinstance(val(a), Opaque)]
        if "std::defer_lock_t" in tags:
            pass
        elif "std::adopt_lock_t" in tags:
            lk.owned = True
        elif "std::try_to_lock_t" in tags:
            lk.m_try_lock(I, [], loc)
        else:
            lk.m_lock(I, [], loc)
        return lk
    if n in EXC_NAMES:
        x = LibExc(n)
        x.what = args[0].v if isinstance(args[0], Cell) else args[0]
        return x
    if n == "std::back_insert_iterator":
        return Opaque(n, val(args[0]))
    if isinstance(v0, It):
        return v0.copy(I)
    if isinstance(v0, MapIt):
        return v0.copy(I)
    if n == "std::initializer_list":
        return v0
    return Opaque(n, args)


def typed(v, loc):
    t = None
    if isinstance(loc, dict) and loc.get("as"):
        t = loc["as"][0].get("t")
    return Cell(v, t)


def take_any(I, a, x, loc):
    v = val(a)
    if isinstance(a, Cell) and isinstance(v, (Rec, StdObj)):
        if moving(I, a, loc) and not (a.t is not None and a.t.const):
            return coerce(I, I.moveval(v), x, loc)
        if x is None or x.rec is None or fits(I, x, v):
            return I.copyval(v)
    return coerce(I, v, x, loc)


def default_var(t):
    types = list(t.a[0]) if t.a and isinstance(t.a[0], tuple) else list(t.a)
    return VarObj(types, 0, Cell(Mono(), types[0]))


def aggregate(I, t, e):
    if t.n == "std::array":
        et = t.a[0]
        inner = e["as"][0] if e["as"] else None
        if inner is not None:
            v = I.ev(inner)
            if isinstance(v, Cell):
                v = v.v
            if isinstance(v, Arr):
                return VecObj(et, v.items, "array")
        return VecObj(et, [Cell(I.default_value(et), et) for _ in range(t.a[1])], "array")
    if not e["as"]:
        return default(I, t)
    raise Unsupported("aggregate %s" % t.n)


def on_new(I, c):
    h = getattr(I, "newhook", None)
    if h:
        h(I, c)


def tuple_get(I, c, i):
    v = c.v
    if isinstance(v, TupObj):
        return v.items[i]
    if isinstance(v, Rec):
        return list(v.f.values())[i]
    if isinstance(v, VecObj):
        return v.items[i]
    if isinstance(v, njson.JPIt):
        return v.m_key(I, [], None) if i == 0 else v.m_value(I, [], None)
    raise Unsupported("structured binding")


def matches(I, pt, a):
    """Score of binding argument a to parameter type pt (None: no)."""
    if pt is None:
        return 0
    q = pt.noref()
    at = arg_type(I, a)
    v = val(a)
    if at is not None:
        if key(at) == key(q):
            return 10 + (1 if pt.k != "r" else 0)
        at = at.noref()
        if q.k == "o" and at.k == "o":
            if at.rec and q.rec in I.p.bases(at.rec):
                return 5
            if isinstance(v, Rec) and q.rec in I.p.bases(v.rid):
                return 5
            if q.n == at.n:
                return 2
            if q.n == "std::basic_string_view" and at.n == "std::basic_string":
                return 2
            if q.n in ("std::function",) and isinstance(v, (Rec, FunObj)):
                return 1
            if q.n in ("std::variant", "std::optional"):
                return 1
            rec = I.p.recs.get(q.rec)
            if rec and rec.get("repo") and not pt.k == "l":
                # converting constructor
                for m in rec.get("methods", ()):
                    if m.get("ctor") and m["id"] in I.p.funcs and len(I.p.funcs[m["id"]]["ps"]) == 1 and not m.get("cc") and not m.get("mc"):
                        if key(I.p.funcs[m["id"]]["ps"][0]["t"]) == key(at):
                            return 1
            return None
        if q.isint and (at.isint or at.flt):
            return 2 if at.isint and not at.isbool and not q.isbool else 1
        if q.flt and (at.flt or at.isint):
            return 2 if at.flt else 1
        if q.k == "p" and at.k == "p":
            return 3
        if q.k == "p" and at.k == "a":
            return 3
    if isinstance(v, Rec):
        return 10 if q.rec == v.rid else (5 if q.rec in I.p.bases(v.rid) else None)
    if isstr(v):
        if q.n == "std::basic_string_view":
            return 3
        if q.n == "std::basic_string":
            return 2
        if q.k in "pa":
            return 5
        return None
    if isinstance(v, StdObj):
        return 5 if q.k == "o" and fits(I, q, v) and not isinstance(v, (Opaque,)) else (1 if isinstance(v, (Opaque, PyObj)) and q.k == "o" else None)
    if isnum(v) or isinstance(v, (TF, Poly)):
        return 1 if q.isint or q.flt else None
    if isinstance(v, (Ptr, APtr)) or v is NULL:
        return 2 if q.k == "p" else (1 if q.k == "o" and q.n in ("std::unique_ptr", "std::shared_ptr") else None)
    return 0


# ---------------------------------------------------------------- calls
def nobody(I, info, this, args, loc):
    """Repository function without a usable body: implicit special members."""
    n = info["n"]
    last = base_name(n)[1]
    if last == "operator=" and this is not None:
        o = this.c
        a = args[0]
        v = val(a)
        mv = False
        f = I.p.funcs.get(info["id"])
        for m in I.p.recs.get(o.v.rid, {}).get("methods", ()) if isinstance(o.v, Rec) else ():
            if m["id"] == info["id"] and m.get("ma"):
                mv = True
        if isinstance(o.v, Rec) and isinstance(v, Rec):
            I.assignrec(o.v, v, mv)
            return o
        o.v = I.copyval(v)
        return o
    if last.startswith("~"):
        return None
    h = getattr(I, "nobodyhook", None)
    if h:
        return h(I, info, this, args, loc)
    raise Unsupported("no body for %s" % n)


def call(I, info, this, args, loc):
    h = getattr(I, "libcallhook", None)
    if h:
        h(I, info, this, args, loc)
    cls, m = base_name(info["n"])
    if this is not None:
        oc = this.c
        o = oc.v
        if isinstance(o, Rec):
            # member of a library base class of a repository class
            b = None
            if m in ("shared_from_this", "weak_from_this"):
                if o.ctl is None or o.ctl.n == 0:
                    I.throw("std::bad_weak_ptr", "", loc)
                o.ctl.n += 1
                return SPtr(Ptr(o.ctl.c), o.ctl)
            for (r, n), c in o.f.items():
                if n == "#base":
                    b = c
            if m.startswith("~"):
                return None
            h = getattr(I, "libbase", {}).get(m)
            if h:
                return h(I, this, args, loc)
            if b is not None:
                oc, o = b, b.v
            else:
                raise Unsupported("library member %s on %s" % (info["n"], o.rid))
        if m.startswith("~"):
            return None
        name = mname(m)
        f = getattr(o, name, None)
        if f is None and name == "op_ne" and hasattr(o, "op_eq"):
            return 1 - o.op_eq(I, args, loc)
        if f is None:
            if isinstance(o, Opaque):
                return opaque_member(I, o, m, args, info, loc)
            if isinstance(o, LibExc) and m == "what":
                w = o.what
                return w if isinstance(w, APtr) else APtr(w, 0) if isinstance(w, (StrObj, SvObj)) else APtr(CStr(b"?"), 0)
            if isinstance(o, tuple) and o and o[0] == "typeid" and m in ("name", "hash_code"):
                return APtr(CStr(str(o[1]).encode()), 0) if m == "name" else hash(o[1]) & 0xffffffff
            if o is UNINIT:
                I.ub("member call on an uninitialised object", loc)
            if name == "op_assign":
                I.assigncell(oc, args[0], moving(I, args[0], loc))
                return oc
            raise Unsupported("member %s on %r at %s" % (info["n"], o, I.here(loc)))
        r = f(I, args, loc)
        if r is None and name in ("op_assign", "op_iadd", "op_isub", "op_inc", "op_dec", "m_append", "m_assign") and not isinstance(o, AtomicObj):
            return oc
        return r
    q = (cls + "::" if cls else "") + m
    q = q.replace("std::ranges::", "std::")
    f = FREE.get(q)
    if f is None and q.startswith("std::") :
        f = FREE.get(q[5:])
    if f is None and q.endswith("::" + m) and m.startswith("operator"):
        f = FREE.get("std::" + m)
    if f is None:
        h = getattr(I, "freehook", None)
        if h:
            return h(I, info, args, loc)
        raise Unsupported("library function %s at %s" % (info["n"], I.here(loc)))
    return f(I, args, loc)


def opaque_member(I, o, m, args, info, loc):
    h = getattr(I, "opaquehook", None)
    if h:
        return h(I, o, m, args, info, loc)
    if m in ("operator()",) and o.name == "std::hash":
        return FREE["#hash"](I, args, loc)
    if o.name == "std::back_insert_iterator":
        if m == "operator=":
            t = o.data
            t.m_push_back(I, args, loc)
            return Cell(o)
        if m in ("operator*", "operator++"):
            return Cell(o)
    if m == "operator=" :
        o.name, o.data = val(args[0]).name, val(args[0]).data
        return Cell(o)
    if o.name in ("std::chrono::duration", "duration", "time", "std::chrono::time_point"):
        if m in ("operator+=", "operator-=", "operator*=", "operator/="):
            return Cell(o)
        if m == "count":
            return I.st.sym("elapsed", -(1 << 63), (1 << 63) - 1)
    raise Unsupported("member %s of %s" % (m, o.name))


FREE = {}
GLOBALS = {}


def free(*names):
    def d(f):
        for n in names:
            FREE[n] = f
        return f
    return d


def _ct(name, pred):
    """<cctype> classification ("C" locale)."""
    def f(I, a, loc):
        v = rd(I, a[0])
        if len(a) > 1:
            raise Unsupported("locale")
        lo, hi = I.st.bounds(v)
        if lo is None or lo < -1 or hi > 255:
            if I.st.cmp("<", v, -1, "%s(negative)@%s" % (name, I.here(loc))):
                I.ub("%s called with a negative character value" % name, loc)
            if I.st.cmp(">", v, 255, name):
                I.ub("%s called with a value outside unsigned char" % name, loc)
        # nonzero results have no particular value; 1 stands for "true"
        r = I.st.map1(lambda x: int(pred(x)) if x is not None and -1 <= x <= 255 else None, v)
        if r is None:
            v = I.concrete(v, name)
            r = int(pred(v))
        return r
    FREE[name] = FREE["std::" + name] = f


def _ch(s):
    m = {ord(c) for c in s}
    return lambda x: x in m


DIG = "0123456789"
LOW = "abcdefghijklmnopqrstuvwxyz"
UP = LOW.upper()
_ct("isdigit", _ch(DIG))
_ct("isalpha", _ch(LOW + UP))
_ct("isalnum", _ch(LOW + UP + DIG))
_ct("isupper", _ch(UP))
_ct("islower", _ch(LOW))
_ct("isxdigit", _ch(DIG + "abcdefABCDEF"))
_ct("isspace", _ch(" \t\n\v\f\r"))
_ct("isblank", _ch(" \t"))
_ct("iscntrl", lambda x: 0 <= x < 32 or x == 127)
_ct("isprint", lambda x: 32 <= x < 127)
_ct("isgraph", lambda x: 32 < x < 127)
_ct("ispunct", lambda x: 32 < x < 127 and chr(x) not in DIG + LOW + UP)


def _case(name, fn):
    def f(I, a, loc):
        v = rd(I, a[0])
        if len(a) > 1:
            # std::tolower(char, locale) of the classic locale: defined for every character
            r = I.st.map1(lambda x: fn(x) if x is not None and 0 <= x <= 127 else x, v)
            return fn(I.concrete(v, name)) if r is None else r
        lo, hi = I.st.bounds(v)
        if lo is None or lo < -1 or hi > 255:
            if I.st.cmp("<", v, -1, "%s(negative)@%s" % (name, I.here(loc))):
                I.ub("%s called with a negative character value" % name, loc)
        r = I.st.map1(lambda x: fn(x) if x is not None and 0 <= x <= 255 else x, v)
        if r is None:
            r = fn(I.concrete(v, name))
        return r
    FREE[name] = FREE["std::" + name] = f


_case("tolower", lambda x: x + 32 if 65 <= x <= 90 else x)
_case("toupper", lambda x: x - 32 if 97 <= x <= 122 else x)


@free("strlen", "std::strlen")
def _strlen(I, a, loc):
    return T.length(I.st, as_text(I, a[0], loc))


@free("std::char_traits::length")
def _ctl(I, a, loc):
    return T.length(I.st, as_text(I, a[0], loc))


@free("strcmp", "std::strcmp")
def _strcmp(I, a, loc):
    return T.cmp3(I.st, as_text(I, a[0], loc), as_text(I, a[1], loc))


@free("strncmp", "std::strncmp")
def _strncmp(I, a, loc):
    x, y, n = as_text(I, a[0], loc), as_text(I, a[1], loc), rd(I, a[2])
    return T.cmp3(I.st, T.sub(I.st, x, 0, n), T.sub(I.st, y, 0, n))


@free("strchr", "std::strchr")
def _strchr(I, a, loc):
    cs = T.chars(I.st, as_text(I, a[0], loc))
    b = to_byte(rd(I, a[1]))
    if cs is None or not all(isnum(c) for c in cs):
        raise Unsupported("strchr")
    cs = cs + [0]
    p = rd(I, a[0])
    if isinstance(p, CStr):
        p = APtr(p, 0)
    if isnum(b):
        return APtr(p.o, I.st.add(p.i, cs.index(b))) if b in cs else NULL
    idx = {}
    for i, c in enumerate(cs):
        idx.setdefault(c, i)
    t = TF(b.s, tuple(None if x is None else idx.get(x, -1) for x in b.tab))
    if I.st.tsplit(t, lambda x: x is not None and x >= 0, "strchr@%s" % I.here(loc)):
        return APtr(p.o, I.st.add(p.i, t))
    return NULL


@free("std::move", "std::forward", "std::as_const", "std::addressof", "std::__addressof", "std::launder", "std::exchange_id")
def _move(I, a, loc):
    if isinstance(loc, dict) and loc.get("fn", {}).get("n", "").endswith("addressof"):
        return Ptr(a[0])
    if len(a) == 3:
        return _moverange(I, a, loc)
    return a[0] if isinstance(a[0], Cell) else Cell(a[0])


def _moverange(I, a, loc):
    raise Unsupported("std::move range")


@free("std::uncaught_exceptions")
def f_uncaught(I, a, loc):
    return I.unwinding


@free("std::uncaught_exception")
def f_uncaught1(I, a, loc):
    return int(I.unwinding > 0)


@free("std::exchange")
def _exchange(I, a, loc):
    c = a[0]
    old = I.moveval(c.v)
    nv = a[1]
    v = I.copyval(val(nv))
    if isinstance(c.v, StdObj) and hasattr(c.v, "op_assign"):
        c.v.op_assign(I, [v if isinstance(v, Cell) else Cell(v)], None)
    else:
        c.v = v
    return old


@free("std::swap")
def _swap(I, a, loc):
    x, y = a
    if x.dead or y.dead:
        I.ub("swap with an object after its lifetime", loc)
    if isinstance(x.v, Rec) and isinstance(y.v, Rec):
        m = I.special(x.v.rid, "mc")
        if m and m.get("up"):
            tmp = Cell(I.moveval(x.v))
            I.assigncell(x, y, True)
            I.assigncell(y, tmp, True)
            I.destroy_cell(tmp)
            return None
    I.write(x, x.v, loc)
    x.v, y.v = y.v, x.v


@free("std::max")
def _max(I, a, loc):
    if len(a) == 1:
        raise Unsupported("max(list)")
    return a[1] if I.truth(I.compare("<", rd(I, a[0]), rd(I, a[1]), loc)) else a[0]


@free("std::min")
def _min(I, a, loc):
    if len(a) == 1:
        raise Unsupported("min(list)")
    return a[1] if I.truth(I.compare("<", rd(I, a[1]), rd(I, a[0]), loc)) else a[0]


@free("std::abs", "abs", "std::llabs", "labs", "llabs")
def _abs(I, a, loc):
    v = rd(I, a[0])
    if I.st.cmp("<", v, 0, "abs"):
        return I.fit(I.st.neg(v), loc["t"], loc)
    return v


@free("std::numeric_limits::max")
def _nmax(I, a, loc):
    t = loc["fn"]["cls"].a[0]
    if t.isint:
        return t.range()[1]
    return (2 - Fraction(1, 1 << 52)) * (1 << 1023)


@free("std::numeric_limits::min")
def _nmin(I, a, loc):
    t = loc["fn"]["cls"].a[0]
    if t.isint:
        return t.range()[0]
    raise Unsupported("float min")


@free("std::numeric_limits::lowest")
def _nlow(I, a, loc):
    t = loc["fn"]["cls"].a[0]
    if t.isint:
        return t.range()[0]
    return -(2 - Fraction(1, 1 << 52)) * (1 << 1023)


@free("std::numeric_limits::infinity")
def _ninf(I, a, loc):
    return FSpecial("inf")


@free("std::numeric_limits::quiet_NaN")
def _nnan(I, a, loc):
    return FSpecial("nan")


@free("pow", "std::pow")
def _pow(I, a, loc):
    x, y = I.st.simp(rd(I, a[0])), I.st.simp(rd(I, a[1]))
    if isnum(x) and x > 1:
        return I.st.pw(int(x) if Fraction(x).denominator == 1 else x, y)
    if isnum(x) and 0 < x < 1 and Fraction(1) / Fraction(x) == int(Fraction(1) / Fraction(x)):
        return I.st.pw(int(Fraction(1) / Fraction(x)), I.st.neg(y))
    if isnum(x) and isnum(y) and Fraction(y).denominator == 1:
        return red(Fraction(x) ** int(y))
    return I.st.opq("pow", (x, y))


@free("std::isnan", "isnan")
def _isnan(I, a, loc):
    v = I.st.simp(rd(I, a[0]))
    if isnum(v):
        return 0
    if isinstance(v, FSpecial):
        return B(v.n == "nan")
    ss = [s for s in I.st.syms(v) if I.st.nan.get(s)]
    if not ss:
        return 0
    s = ss[0]
    if I.st.nan[s] == "yes":
        return 1
    if I.st.choose(2, "isnan@%s" % I.here(loc)) == 0:
        del I.st.nan[s]
        return _isnan(I, a, loc)
    I.st.nan[s] = "yes"
    return 1


@free("std::isfinite", "isfinite")
def _isfinite(I, a, loc):
    v = I.st.simp(rd(I, a[0]))
    if isnum(v):
        return 1
    if _isnan(I, a, loc):
        return 0
    lim = (2 - Fraction(1, 1 << 52)) * (1 << 1023)
    return B(I.st.cmp("<=", v, lim, "finite") and I.st.cmp(">=", v, -lim, "finite"))


@free("std::isinf", "isinf")
def _isinf(I, a, loc):
    if _isnan(I, a, loc):
        return 0
    return 1 - _isfinite(I, a, loc)


@free("std::floor", "floor", "std::ceil", "ceil", "std::trunc", "trunc", "std::round", "round", "std::nearbyint", "std::rint",
      "std::fabs", "fabs", "std::fmod", "fmod", "std::sqrt", "std::log10", "log10", "exp10", "std::ldexp", "ldexp", "std::fmin", "std::fmax")
def _fl(I, a, loc):
    vs = tuple(I.st.simp(rd(I, x)) for x in a)
    if isnum(vs[0]) and len(vs) == 1 and "floor" in loc["fn"]["n"]:
        return Fraction(vs[0]).__floor__()
    lo = hi = None
    if len(vs) == 1 and base_name(loc["fn"]["n"])[1] in ("floor", "ceil", "trunc", "round", "nearbyint", "rint"):
        l, h = I.st.bounds(vs[0])
        lo = None if l is None else Fraction(l).__floor__()
        hi = None if h is None else Fraction(h).__ceil__()
    return I.st.opq(base_name(loc["fn"]["n"])[1], vs, None, lo, hi)


@free("__assert_fail")
def _assert(I, a, loc):
    raise PathEnd("assertion")


@free("__builtin_unreachable", "std::unreachable")
def _unreach(I, a, loc):
    I.ub("unreachable code reached", loc)


@free("std::abort", "abort", "std::terminate", "exit", "std::exit")
def _abort(I, a, loc):
    raise PathEnd("abort")


@free("__builtin_expect")
def _expect(I, a, loc):
    return rd(I, a[0])


def _ovf(opn):
    def f(I, a, loc):
        st = I.st
        x, y = rd(I, a[0]), rd(I, a[1])
        dst = val(a[2])
        dst = I.deref(dst, loc) if isinstance(dst, (Ptr, APtr)) else a[2]
        t = dst.t or loc["as"][2]["t"].to
        v = {"+": st.add, "-": st.sub, "*": st.mul}[opn](x, y)
        lo, hi = t.range()
        if st.cmp(">", v, hi, "overflow@%s" % I.here(loc)) or st.cmp("<", v, lo, "overflow@%s" % I.here(loc)):
            I.write(dst, I.wrap(st.simp(v), t) if not isnum(st.simp(v)) else I.fit(st.simp(v), t, loc, conv=True), loc)
            return 1
        I.write(dst, v, loc)
        return 0
    return f


for _n, _o in (("add", "+"), ("sub", "-"), ("mul", "*")):
    FREE["__builtin_%s_overflow" % _n] = _ovf(_o)
    for _s in ("l", "ll", "", "ul", "ull", "u"):
        FREE["__builtin_s%s%s_overflow" % (_n, _s)] = _ovf(_o)
        FREE["__builtin_%s%s_overflow" % (_s, _n)] = _ovf(_o)


# strings
def fmt_text(I, tag, args):
    vs = []
    for a in args:
        v = val(a)
        if isinstance(v, (StrObj, SvObj, CStr, APtr)):
            try:
                v = as_text(I, a)
                v = ("text", v.segs)
            except Unsupported:
                v = "?"
        elif isinstance(v, (int, Fraction)):
            pass
        elif isinstance(v, (TF, Poly)):
            v = I.st.key(v)
        else:
            v = id(v)
        vs.append(v)
    k = ("fmt", tag, tuple(vs))
    x = I.st.intern.get(k)
    if x is None:
        I.st.n += 1
        n = I.st.n
        ln = I.st.sym("len", 0, BIG)
        x = T.XSeg(n, ln, tag, tuple(args))
        I.st.intern[k] = x
    return T.Text([("x", x)])


@free("std::to_string")
def _to_string(I, a, loc):
    v = I.st.simp(rd(I, a[0]))
    if isinstance(v, int):
        return StrObj(T.const(str(v).encode()))
    return StrObj(fmt_text(I, "to_string", [v]))


@free("fmt::format", "std::format")
def _format(I, a, loc):
    return StrObj(fmt_text(I, "format", a))


@free("fmt::join")
def _join(I, a, loc):
    return Opaque("fmt::join", a)


@free("std::string_literals::operator\"\"s", "std::literals::string_literals::operator\"\"s", "std::operator\"\"s")
def _lits(I, a, loc):
    return StrObj(T.sub(I.st, raw_text(I, rd(I, a[0])), 0, rd(I, a[1])))


@free("std::string_view_literals::operator\"\"sv", "std::literals::string_view_literals::operator\"\"sv", "std::operator\"\"sv")
def _litsv(I, a, loc):
    return SvObj(T.sub(I.st, raw_text(I, rd(I, a[0])), 0, rd(I, a[1])))


@free("std::operator+", "__gnu_cxx::operator+")
def _plus(I, a, loc):
    x, y = rd(I, a[0]), rd(I, a[1])
    if isinstance(x, It):
        return It(x.o, I.st.add(x.i, y))
    if isinstance(y, It):
        return It(y.o, I.st.add(y.i, x))
    s = StrObj()
    return StrObj(T.cat(I.st, s.app(I, [a[0]], loc), s.app(I, [a[1]], loc)))


@free("std::operator-", "__gnu_cxx::operator-")
def _minus(I, a, loc):
    x, y = rd(I, a[0]), rd(I, a[1])
    if isinstance(x, It):
        return x.op_sub(I, [a[1]], loc)
    raise Unsupported("operator-")


def _rel(op):
    nm = {"==": "op_eq", "!=": "op_ne", "<": "op_lt", ">": "op_gt", "<=": "op_le", ">=": "op_ge"}[op]
    sw = {"==": "op_eq", "!=": "op_ne", "<": "op_gt", ">": "op_lt", "<=": "op_ge", ">=": "op_le"}[op]

    def f(I, a, loc):
        x, y = rd(I, a[0]), rd(I, a[1])
        if isinstance(x, Opaque) and x.name == "cmp3":
            return B(I.st.cmp(op, x.data, 0, op))
        if isinstance(y, Opaque) and y.name == "cmp3":
            return B(I.st.cmp(op, 0, y.data, op))
        if isinstance(x, StdObj) and hasattr(x, nm):
            return getattr(x, nm)(I, [a[1]], loc)
        if isinstance(y, StdObj) and hasattr(y, sw):
            return getattr(y, sw)(I, [a[0]], loc)
        if op == "!=" and isinstance(x, StdObj) and hasattr(x, "op_eq"):
            return 1 - x.op_eq(I, [a[1]], loc)
        if isinstance(x, tuple) and isinstance(y, tuple) and op in ("==", "!="):
            return B((x == y) == (op == "=="))
        if isstr(x) and isstr(y):
            r = T.cmp3(I.st, as_text(I, a[0], loc), as_text(I, a[1], loc))
            return B(I.st.cmp(op, r, 0))
        raise Unsupported("operator%s on %r, %r" % (op, x, y))
    return f


for _o in ("==", "!=", "<", ">", "<=", ">="):
    FREE["std::operator" + _o] = FREE["__gnu_cxx::operator" + _o] = FREE["std::__detail::operator" + _o] = _rel(_o)


@free("std::operator<=>", "__gnu_cxx::operator<=>")
def _three(I, a, loc):
    x, y = rd(I, a[0]), rd(I, a[1])
    if isinstance(x, (StrObj, SvObj)) or isinstance(y, (StrObj, SvObj)):
        return Opaque("cmp3", T.cmp3(I.st, as_text(I, a[0], loc), as_text(I, a[1], loc)))
    if isinstance(x, It):
        return Opaque("cmp3", I.st.sub(x.i, y.i))
    raise Unsupported("operator<=>")


@free("std::operator<<")
def _shl(I, a, loc):
    h = getattr(I, "streamhook", None)
    if h:
        h(I, a, loc)
    return a[0]


@free("std::getline")
def _getline(I, a, loc):
    raise Unsupported("getline")


# algorithms
def rng(I, a, b, loc):
    x, y = rd(I, a), rd(I, b)
    if isinstance(x, MapIt):
        return x, y
    if isinstance(x, APtr):
        x = It(PtrRange(x.o), x.i)
    if isinstance(y, APtr):
        y = It(x.o if isinstance(x.o, PtrRange) and x.o.o is y.o else PtrRange(y.o), y.i)
    if not isinstance(x, It) or not isinstance(y, It):
        raise Unsupported("iterator range")
    if x.o is not y.o:
        I.ub("iterator pair from different containers", loc)
    return x, y


class PtrRange(StdObj):
    def __init__(self, o):
        self.o = o

    def item(self, I, i, loc):
        return self.o.at(I, i, loc)


def iterate(I, a, b, loc, label):
    """Yields (position, cell) for [a,b); decides the end by choice when abstract."""
    if isinstance(a, MapIt):
        c = a.c
        while c is not None and c is not b.c:
            yield MapIt(a.o, c), c
            i = a.o.items.index(c)
            c = a.o.items[i + 1] if i + 1 < len(a.o.items) else None
        return
    i = a.i
    n = 0
    while True:
        if not I.st.cmp("<", i, b.i, "%s@%s" % (label, I.here(loc))):
            return
        yield It(a.o, i), a.o.item(I, i, loc)
        i = I.st.add(i, 1)
        n += 1
        if n > I.max_iter:
            raise PathEnd("loop bound in %s at %s" % (label, I.here(loc)))


def istrue(I, v, loc):
    return I.truth(val(v), loc)


@free("std::all_of")
def _all_of(I, a, loc):
    x, y = rng(I, a[0], a[1], loc)
    for _, c in iterate(I, x, y, loc, "all_of"):
        if not istrue(I, I.call_value(a[2], [c], loc), loc):
            return 0
    return 1


@free("std::any_of")
def _any_of(I, a, loc):
    x, y = rng(I, a[0], a[1], loc)
    for _, c in iterate(I, x, y, loc, "any_of"):
        if istrue(I, I.call_value(a[2], [c], loc), loc):
            return 1
    return 0


@free("std::none_of")
def _none_of(I, a, loc):
    return 1 - _any_of(I, a, loc)


@free("std::find_if")
def _find_if(I, a, loc):
    x, y = rng(I, a[0], a[1], loc)
    for p, c in iterate(I, x, y, loc, "find_if"):
        if istrue(I, I.call_value(a[2], [c], loc), loc):
            return p if not isinstance(x.o, PtrRange) else APtr(x.o.o, p.i)
    return rd(I, a[1]).copy(I) if isinstance(rd(I, a[1]), StdObj) else rd(I, a[1])


@free("std::find_if_not")
def _find_if_not(I, a, loc):
    x, y = rng(I, a[0], a[1], loc)
    for p, c in iterate(I, x, y, loc, "find_if_not"):
        if not istrue(I, I.call_value(a[2], [c], loc), loc):
            return p if not isinstance(x.o, PtrRange) else APtr(x.o.o, p.i)
    return rd(I, a[1]).copy(I) if isinstance(rd(I, a[1]), StdObj) else rd(I, a[1])


@free("std::find")
def _find(I, a, loc):
    x, y = rng(I, a[0], a[1], loc)
    for p, c in iterate(I, x, y, loc, "find"):
        if equal(I, c, a[2], loc):
            return p if not isinstance(x.o, PtrRange) else APtr(x.o.o, p.i)
    return rd(I, a[1]).copy(I) if isinstance(rd(I, a[1]), StdObj) else rd(I, a[1])


@free("std::count_if")
def _count_if(I, a, loc):
    x, y = rng(I, a[0], a[1], loc)
    return sum(1 for _, c in iterate(I, x, y, loc, "count_if") if istrue(I, I.call_value(a[2], [c], loc), loc))


@free("std::count")
def _count(I, a, loc):
    x, y = rng(I, a[0], a[1], loc)
    return sum(1 for _, c in iterate(I, x, y, loc, "count") if equal(I, c, a[2], loc))


@free("std::for_each")
def _for_each(I, a, loc):
    x, y = rng(I, a[0], a[1], loc)
    for _, c in iterate(I, x, y, loc, "for_each"):
        I.call_value(a[2], [c], loc)
    return val(a[2])


@free("std::transform")
def _transform(I, a, loc):
    x, y = rng(I, a[0], a[1], loc)
    out = rd(I, a[2])
    if len(a) != 4:
        raise Unsupported("binary transform")
    src = x.o
    whole = isinstance(src, (StrObj, SvObj)) and I.st.simp(x.i) == 0 and I.st.simp(I.st.sub(y.i, src.size(I))) == 0
    sink = None
    if isinstance(out, It) and isinstance(out.o, StrObj):
        sink = "inplace" if out.o is src and I.st.simp(I.st.sub(out.i, x.i)) == 0 else None
    elif isinstance(out, Opaque) and out.name == "std::back_insert_iterator":
        sink = "append"
    if isinstance(src, (StrObj, SvObj)) and whole and sink and (sink == "inplace" or isinstance(out.data, StrObj)):
        segs = []
        for s in src.t.segs:
            n = T.seglen(I.st, s)
            if isnum(n) and n <= 16 and s[0] != "x":
                for i in range(n):
                    b = T.segat(I.st, s, i)
                    segs.append(("c", to_byte(val(I.call_value(a[3], [Cell(to_char(I.st.simp(b)))], loc)))))
            else:
                # one generic character of the segment
                c = I.st.newcs(mask=getattr(s[1], "mask", FULL) if s[0] == "x" else FULL)
                r = to_byte(val(I.call_value(a[3], [Cell(TF(c, SIGNED))], loc)))
                if isinstance(r, TF) and r.s is c and I.st.dom[c] == FULL:
                    segs.append(("m", r.tab, s))
                else:
                    raise Unsupported("transform of an abstract text")
        if sink == "inplace":
            src.set(T.norm(I.st, segs))
            return It(src, src.size(I))
        out.data.set(T.cat(I.st, out.data.t, T.norm(I.st, segs)))
        return out
    if isinstance(out, Opaque) and out.name == "std::back_insert_iterator":
        for _, c in iterate(I, x, y, loc, "transform"):
            r = I.call_value(a[3], [c], loc)
            out.data.m_push_back(I, [r if not isinstance(r, Cell) else r], None)
        return out
    if isinstance(out, It) and isinstance(out.o, VecObj):
        k = out.i
        for _, c in iterate(I, x, y, loc, "transform"):
            d = out.o.item(I, k, loc)
            d.v = coerce(I, val(I.call_value(a[3], [c], loc)), out.o.et, loc)
            k = I.st.add(k, 1)
        return It(out.o, k)
    raise Unsupported("transform")


@free("std::copy", "std::copy_if")
def _copy(I, a, loc):
    x, y = rng(I, a[0], a[1], loc)
    out = rd(I, a[2])
    if isinstance(out, Opaque) and out.name == "std::back_insert_iterator":
        for _, c in iterate(I, x, y, loc, "copy"):
            if len(a) > 3 and not istrue(I, I.call_value(a[3], [c], loc), loc):
                continue
            out.data.m_push_back(I, [Cell(c.v, c.t)], None)
        return out
    raise Unsupported("copy")


@free("std::equal")
def _equal(I, a, loc):
    x, y = rng(I, a[0], a[1], loc)
    st = I.st
    pred = None
    rest = a[2:]
    if len(rest) in (2, 3) and isinstance(rd(I, rest[1]), (It, APtr)):
        u, w = rng(I, rest[0], rest[1], loc)
        pred = rest[2] if len(rest) == 3 else None
        if not st.cmp("==", st.sub(y.i, x.i), st.sub(w.i, u.i), "equal length@%s" % I.here(loc)):
            return 0
    else:
        u = rd(I, rest[0])
        if isinstance(u, APtr):
            u = It(PtrRange(u.o), u.i)
        pred = rest[1] if len(rest) > 1 else None
    k = u.i
    for _, c in iterate(I, x, y, loc, "equal"):
        d = u.o.item(I, k, loc)
        k = st.add(k, 1)
        if pred is not None:
            if not istrue(I, I.call_value(pred, [c, d], loc), loc):
                return 0
        elif not equal(I, c, d, loc):
            return 0
    return 1


@free("std::lexicographical_compare")
def _lex(I, a, loc):
    st = I.st
    x, y = rng(I, a[0], a[1], loc)
    u, w = rng(I, a[2], a[3], loc)
    pred = a[4] if len(a) > 4 else None
    i, k = x.i, u.i
    n = 0
    while True:
        e1 = not st.cmp("<", i, y.i, "lex1@%s" % I.here(loc))
        e2 = not st.cmp("<", k, w.i, "lex2@%s" % I.here(loc))
        if e1:
            return B(not e2)
        if e2:
            return 0
        c, d = x.o.item(I, i, loc), u.o.item(I, k, loc)

        def less(p, q):
            if pred is not None:
                return istrue(I, I.call_value(pred, [p, q], loc), loc)
            return istrue(I, I.compare("<", val(p), val(q), loc), loc)
        if less(c, d):
            return 1
        if less(d, c):
            return 0
        i, k = st.add(i, 1), st.add(k, 1)
        n += 1
        if n > I.max_iter:
            raise PathEnd("loop bound in lexicographical_compare")


@free("std::accumulate")
def _accumulate(I, a, loc):
    x, y = rng(I, a[0], a[1], loc)
    acc = Cell(I.copyval(val(a[2])), arg_type(I, a[2]))
    for _, c in iterate(I, x, y, loc, "accumulate"):
        if len(a) > 3:
            acc = Cell(I.toval(I.call_value(a[3], [acc, c], loc)), acc.t)
        else:
            acc = Cell(I.binop("+", acc.v, c.v, loc["t"], loc), acc.t)
    return acc.v


@free("std::distance")
def _distance(I, a, loc):
    x, y = rng(I, a[0], a[1], loc)
    return I.st.sub(y.i, x.i)


@free("std::next", "std::prev")
def _next(I, a, loc):
    x = rd(I, a[0])
    n = rd(I, a[1]) if len(a) > 1 else 1
    if loc["fn"]["n"].split("<")[0].endswith("prev"):
        n = I.st.neg(n)
    if isinstance(x, It):
        return It(x.o, I.st.add(x.i, n))
    if isinstance(x, MapIt):
        r = x.copy(I)
        for _ in range(I.concrete(n, "next")):
            r.op_inc(I, [], loc)
        return r
    raise Unsupported("next")


@free("std::advance")
def _advance(I, a, loc):
    x = rd(I, a[0])
    x.i = I.st.add(x.i, rd(I, a[1]))


@free("std::begin", "std::cbegin")
def _begin(I, a, loc):
    v = rd(I, a[0])
    if isinstance(v, Arr):
        return APtr(v, 0)
    return v.m_begin(I, [], loc)


@free("std::end", "std::cend")
def _end(I, a, loc):
    v = rd(I, a[0])
    if isinstance(v, Arr):
        return APtr(v, len(v.items))
    return v.m_end(I, [], loc)


@free("std::size")
def _size(I, a, loc):
    v = rd(I, a[0])
    if isinstance(v, Arr):
        return len(v.items)
    return v.m_size(I, [], loc)


@free("std::empty")
def _empty(I, a, loc):
    v = rd(I, a[0])
    return v.m_empty(I, [], loc)


@free("std::data")
def _data(I, a, loc):
    v = rd(I, a[0])
    return v.m_data(I, [], loc)


@free("std::back_inserter")
def _backins(I, a, loc):
    return Opaque("std::back_insert_iterator", val(a[0]))


@free("std::make_move_iterator")
def _mmi(I, a, loc):
    x = rd(I, a[0])
    return MoveIt(x.o, x.i)


@free("std::make_pair", "std::make_tuple")
def _mkpair(I, a, loc):
    t = loc["t"]
    return construct_lib(I, t, a, loc)


@free("std::tie", "std::forward_as_tuple")
def _tie(I, a, loc):
    out = []
    for x in a:
        c = x if isinstance(x, Cell) else Cell(x)
        out.append(c)
    return TieObj(out)


class TieObj(TupObj):
    def destroy(self, I):
        pass

    def copy(self, I):
        return self


@free("std::make_unique")
def _mkunique(I, a, loc):
    t = loc["fn"]["ta"][0]
    c = Cell(make(I, t, a, loc), t, "new")
    on_new(I, c)
    return UPtr(Ptr(c), t)


@free("std::make_shared")
def _mkshared(I, a, loc):
    t = loc["fn"]["ta"][0]
    c = Cell(make(I, t, a, loc), t, "new")
    on_new(I, c)
    return SPtr(Ptr(c), Ctl(c))


@free("std::make_optional")
def _mkopt(I, a, loc):
    t = loc["t"]
    return OptObj(t.a[0], Cell(make(I, t.a[0], a, loc), t.a[0]))


@free("std::get")
def _get(I, a, loc):
    v = rd(I, a[0], loc)
    ta = loc["fn"].get("ta") or []
    k = ta[0] if ta else 0
    if isinstance(v, TupObj):
        if isinstance(k, int):
            return v.items[k]
        for c in v.items:
            if key(c.t) == key(k):
                return c
        raise Unsupported("get<T>")
    if isinstance(v, VarObj):
        if isinstance(k, int):
            ok = v.idx == k
        else:
            ok = key(v.types[v.idx]) == key(k)
        if not ok:
            I.throw("std::bad_variant_access", "", loc)
        return v.c
    if isinstance(v, VecObj):
        return v.item(I, k, loc)
    raise Unsupported("std::get")


@free("std::get_if")
def _get_if(I, a, loc):
    p = rd(I, a[0], loc)
    if p is NULL:
        return NULL
    v = I.deref(p, loc).v
    k = loc["fn"]["ta"][0]
    ok = v.idx == k if isinstance(k, int) else key(v.types[v.idx]) == key(k)
    return Ptr(v.c) if ok else NULL


@free("std::holds_alternative")
def _holds(I, a, loc):
    v = rd(I, a[0], loc)
    return B(key(v.types[v.idx]) == key(loc["fn"]["ta"][0]))


@free("std::visit")
def _visit(I, a, loc):
    cells = []
    for x in a[1:]:
        v = rd(I, x, loc)
        if not isinstance(v, VarObj):
            raise Unsupported("visit")
        c = v.c
        if c.t is None:
            c.t = v.types[v.idx]
        cells.append(c)
    return I.call_value(a[0], cells, loc)


@free("std::lock")
def _lock(I, a, loc):
    for x in a:
        v = val(x)
        v.m_lock(I, [], loc)


@free("std::invoke")
def _invoke(I, a, loc):
    return I.call_value(a[0], list(a[1:]), loc)


@free("std::ref", "std::cref")
def _ref(I, a, loc):
    return a[0]


@free("#hash")
def _hash(I, a, loc):
    v = val(a[0])
    if isinstance(v, (StrObj, SvObj)):
        return I.st.opq("hash", (0,), None, 0, (1 << 64) - 1)
    raise Unsupported("hash")


@free("std::regex_match", "std::regex_search")
def _regex(I, a, loc):
    h = getattr(I, "regexhook", None)
    if h:
        return h(I, a, loc)
    raise Unsupported("regex")


@free("std::dynamic_pointer_cast", "std::static_pointer_cast")
def _dpc(I, a, loc):
    raise Unsupported("pointer cast")


class FromChars(LibValue):
    def __init__(self, ptr, ec):
        self.f = {"ptr": Cell(ptr), "ec": Cell(ec)}

    def field(self, I, n):
        return self.f.get(n)


@free("std::from_chars")
def _from_chars(I, a, loc):
    st = I.st
    p, q = rd(I, a[0]), rd(I, a[1])
    dst = a[2]
    t = dst.t
    if t is None or not t.isint:
        raise Unsupported("from_chars of a floating value")
    base = I.concrete(rd(I, a[3]), "base") if len(a) > 3 else 10
    src = raw_text(I, APtr(p.o, 0))
    i = p.i
    n = 0
    acc = 0
    neg = False
    def more():
        return st.cmp("<", i, q.i, "from_chars@%s" % I.here(loc))
    if t.s and more() and st.cmp("==", T.at(st, src, i), 45, "from_chars -"):
        neg = True
        i = st.add(i, 1)
    over = False
    while more():
        c = T.at(st, src, i)
        d = ctab_digit(c, base)
        if isnum(d):
            if d < 0:
                break
        elif not st.tsplit(d, lambda x: x is not None and x >= 0, "digit@%s" % I.here(loc)):
            break
        n += 1
        if n > I.max_iter:
            raise PathEnd("loop bound in from_chars")
        acc = st.add(st.mul(acc, base), st.simp(d))
        i = st.add(i, 1)
    if n == 0:
        return FromChars(APtr(p.o, p.i), 22)
    if neg:
        acc = st.neg(acc)
    lo, hi = t.range()
    if st.cmp(">", acc, hi, "from_chars range") or st.cmp("<", acc, lo, "from_chars range"):
        return FromChars(APtr(p.o, i), 34)
    I.write(dst, st.simp(acc), loc)
    return FromChars(APtr(p.o, i), 0)


def ctab_digit(c, base):
    def f(x):
        if x is None:
            return None
        if 48 <= x <= 57:
            d = x - 48
        elif 97 <= x <= 122:
            d = x - 87
        elif 65 <= x <= 90:
            d = x - 55
        else:
            return -1
        return d if d < base else -1
    if isnum(c):
        return f(c)
    return TF(c.s, tuple(f(x) for x in c.tab))


@free("std::chrono::steady_clock::now", "std::chrono::_V2::steady_clock::now")
def _now(I, a, loc):
    return Opaque("time")


@free("std::chrono::operator-", "std::chrono::duration_cast")
def _tdiff(I, a, loc):
    return Opaque("duration")


def _npos(I, e):
    return (1 << 64) - 1


GLOBALS["std::basic_string::npos"] = _npos
GLOBALS["std::basic_string_view::npos"] = _npos
for _n in ("std::defer_lock", "std::adopt_lock", "std::try_to_lock", "std::in_place", "std::nothrow"):
    GLOBALS[_n] = (lambda nm: lambda I, e: Opaque(nm + "_t"))(_n)
GLOBALS["std::nullopt"] = lambda I, e: NullOpt()


@free("sscanf", "std::sscanf")
def _sscanf(I, a, loc):
    """One numeric conversion: fails, or stores an unknown value of the type of the conversion."""
    f = as_text(I, a[1], loc)
    cs = [c for k, c in ((s[0], s[1]) for s in T.norm(I.st, f.segs).segs) if k == "c"]
    fmtv = bytes(int(c) & 255 for c in cs if isnum(c)).decode("latin-1").strip()
    if len(a) != 3 or fmtv not in ("%lld", "%ld", "%li", "%lli", "%lf", "%d", "%i"):
        raise Unsupported("sscanf format %r" % fmtv)
    as_text(I, a[0], loc)
    p = rd(I, a[2])
    if not isinstance(p, Ptr):
        raise Unsupported("sscanf target")
    t = p.c.t
    want = {"%lf": None, "%d": 32, "%i": 32}.get(fmtv, 64)
    if t is None or (want is None) != bool(t.flt) or (want is not None and t.w != want):
        I.ub("sscanf conversion %s does not match the type of its argument" % fmtv, loc)
    if I.st.choose(2, "sscanf@%s" % I.here(loc)) == 1:
        return 0
    I.write(p.c, I.st.sym("scanned", None, None, real=True) if want is None else I.st.sym("scanned", -(1 << (want - 1)), (1 << (want - 1)) - 1), loc)
    return 1


from . import njson
