"""Abstract character sequences."""
from .dom import *


class Tape:
    """The analysed input text: positions are constants or polynomials; cells are created on demand."""

    def __init__(self, st, end):
        self.st = st
        self.cells = {}
        self.end = end
        self.low = 0  # cells before this position have been forgotten

    def cell(self, p):
        p = self.st.simp(p)
        c = self.cells.get(p)
        if c is None:
            for q, x in self.cells.items():
                if self.st.simp(q) == p:
                    return x
            d = self.st.sub(p, self.low)
            lo, hi = self.st.bounds(d)
            if lo is None or lo < 0:
                raise Unsupported("read of a forgotten input position")
            c = self.st.newcs(pos=p, tag=self)
            self.cells[p] = c
        return c

    def __repr__(self):
        return "tape"


class XSeg:
    """Opaque text: unknown content, known or abstract length."""
    __slots__ = ("id", "len", "tag", "data")

    def __init__(self, id, len, tag="", data=None):
        self.id = id
        self.len = len
        self.tag = tag
        self.data = data

    def __eq__(self, o):
        return isinstance(o, XSeg) and o.id == self.id

    def __hash__(self):
        return hash(self.id)

    def __repr__(self):
        return "X%s" % (self.tag or self.id,)


class Text:
    __slots__ = ("segs",)

    def __init__(self, segs=()):
        self.segs = tuple(segs)

    def __repr__(self):
        return "Text%r" % (self.segs,)


EMPTY = Text()


def const(b):
    return Text([("c", x) for x in b])


def norm(st, segs):
    out = []
    for s in segs:
        if s[0] == "c":
            v = s[1]
            if isinstance(v, TF) and v.s.pos is not None and isinstance(v.s.tag, Tape) and v.tab == UNSIGNED:
                s = ("t", v.s.tag, v.s.pos, st.add(v.s.pos, 1))
            elif isinstance(v, TF):
                v = st.simp(v)
                s = ("c", v)
        if s[0] == "t":
            d = st.simp(st.sub(s[3], s[2]))
            if d == 0:
                continue
            if out and out[-1][0] == "t" and out[-1][1] is s[1] and st.simp(st.sub(out[-1][3], s[2])) == 0:
                out[-1] = ("t", s[1], out[-1][2], s[3])
                continue
        out.append(s)
    return Text(out)


def cat(st, *ts):
    r = []
    for t in ts:
        r.extend(t.segs)
    return norm(st, r)


def seglen(st, s):
    if s[0] == "c":
        return 1
    if s[0] == "t":
        return st.simp(st.sub(s[3], s[2]))
    if s[0] == "x":
        return st.simp(s[1].len)
    if s[0] == "m":
        return seglen(st, s[2])
    raise Unsupported("segment")


def length(st, t):
    n = 0
    for s in t.segs:
        n = st.add(n, seglen(st, s))
    return st.simp(n)


def ctab(f, v):
    if isinstance(v, TF):
        return TF(v.s, tuple(None if x is None else f(x) for x in v.tab))
    return f(v)


def segat(st, s, i):
    if s[0] == "c":
        return s[1]
    if s[0] == "t":
        return TF(s[1].cell(st.add(s[2], i)), UNSIGNED)
    if s[0] == "m":
        return ctab(lambda x: s[1][x], segat(st, s[2], i))
    if s[0] == "x":
        d = s[1].data
        if isinstance(d, dict):
            k = st.simp(i)
            if k not in d:
                d[k] = st.newcs(tag=s[1])
            return TF(d[k], UNSIGNED)
    raise Unsupported("character of an opaque text")


def at(st, t, i):
    """Byte value at index i (caller checked the bounds)."""
    i = st.simp(i)
    for k, s in enumerate(t.segs):
        n = seglen(st, s)
        if isnum(n) and isnum(i):
            if i < n:
                return st.simp(segat(st, s, i))
            i -= n
            continue
        if k == len(t.segs) - 1:
            return st.simp(segat(st, s, i))
        lo, hi = st.bounds(st.sub(n, i))
        if lo is not None and lo > 0:
            return st.simp(segat(st, s, i))
        if hi is not None and hi <= 0:
            i = st.sub(i, n)
            continue
        raise Unsupported("index into a text of unknown shape")
    raise Unsupported("index past the end of a text")


def chars(st, t, limit=64):
    """All byte values when the length is constant, else None."""
    n = length(st, t)
    if not isnum(n) or n > limit:
        return None
    out = []
    for s in t.segs:
        m = seglen(st, s)
        if not isnum(m):
            return None
        if s[0] == "x" and not isinstance(s[1].data, dict):
            return None
        for i in range(m):
            out.append(st.simp(segat(st, s, i)))
    return out


def spell(st, s, off, m, n):
    """The first characters of an opaque text that remembers its characters."""
    if s[0] != "x" or not isinstance(s[1].data, dict) or not (isnum(off) and isnum(m) and isnum(n)) or n > 64:
        return None
    return [("c", segat(st, s, off + i)) for i in range(int(min(n, m - off)))]


def sub(st, t, off, n):
    """Subtext [off, off+n); caller established off <= length; n may be None (to the end)."""
    out = []
    off = st.simp(off)
    total = length(st, t)
    rest = st.sub(total, off)
    if n is None:
        n = rest
    else:
        if not isnum(n) or not isnum(rest) or True:
            if not st.cmp("<=", n, rest, "substr length"):
                n = rest
    n = st.simp(n)
    segs = list(t.segs)
    # skip
    k = 0
    while k < len(segs):
        s = segs[k]
        m = seglen(st, s)
        if isnum(off) and off == 0:
            break
        d = st.simp(st.sub(off, m))
        lo, hi = st.bounds(d)
        if lo is not None and lo >= 0:
            off = d
            k += 1
            continue
        if hi is not None and hi < 0 or k == len(segs) - 1:
            if s[0] == "t":
                segs[k] = ("t", s[1], st.add(s[2], off), s[3])
            elif s[0] == "m" and s[2][0] == "t":
                segs[k] = ("m", s[1], ("t", s[2][1], st.add(s[2][2], off), s[2][3]))
            elif spell(st, s, off, m, n):
                segs[k:k + 1] = spell(st, s, off, m, n)
            else:
                raise Unsupported("substring of an opaque text")
            off = 0
            break
        raise Unsupported("substring offset")
    # take
    while k < len(segs):
        if isnum(n) and n == 0:
            break
        s = segs[k]
        m = seglen(st, s)
        d = st.simp(st.sub(n, m))
        lo, hi = st.bounds(d)
        if lo is not None and lo >= 0:
            out.append(s)
            n = d
            k += 1
            continue
        if hi is not None and hi <= 0 or k == len(segs) - 1:
            if s[0] == "t":
                out.append(("t", s[1], s[2], st.add(s[2], n)))
            elif s[0] == "m" and s[2][0] == "t":
                out.append(("m", s[1], ("t", s[2][1], s[2][2], st.add(s[2][2], n))))
            elif spell(st, s, 0, m, n):
                out += spell(st, s, 0, m, n)
            else:
                raise Unsupported("substring of an opaque text")
            n = 0
            break
        raise Unsupported("substring length")
    return norm(st, out)


def known(st, t, limit=12):
    """Byte values of a text whose characters have all been read already (no new cells), else None."""
    out = []
    for s in t.segs:
        if s[0] == "c":
            out.append(s[1])
        elif s[0] == "t":
            n = st.simp(st.sub(s[3], s[2]))
            if not isnum(n) or n > limit:
                return None
            for i in range(n):
                c = s[1].cells.get(st.simp(st.add(s[2], i)))
                if c is None:
                    return None
                out.append(TF(c, UNSIGNED))
        elif s[0] == "m" and s[2][0] == "c":
            out.append(ctab(lambda x: s[1][x], s[2][1]))
        else:
            return None
        if len(out) > limit:
            return None
    return out


def flat(st, t):
    """Segments with every already examined character at the ends of a slice as a separate character."""
    out = []

    def cell(tp, p):
        return tp.cells.get(st.simp(p))
    for s in t.segs:
        if s[0] != "t":
            out.append(s)
            continue
        a, b = s[2], s[3]
        n = st.simp(st.sub(b, a))
        if isnum(n) and n <= 12:
            for i in range(n):
                p = st.add(a, i)
                c = cell(s[1], p)
                out.append(("c", TF(c, UNSIGNED)) if c is not None else ("t", s[1], p, st.add(p, 1)))
            continue
        lo = st.bounds(n)[0] or 0
        pre, post = [], []
        k = 0
        while k < 6 and k < lo:
            c = cell(s[1], a)
            if c is None:
                break
            pre.append(("c", TF(c, UNSIGNED)))
            a = st.add(a, 1)
            k += 1
        while k < 6 and k < lo:
            q = st.sub(b, 1)
            c = cell(s[1], q)
            if c is None:
                break
            post.insert(0, ("c", TF(c, UNSIGNED)))
            b = q
            k += 1
        out.extend(pre)
        out.append(("t", s[1], a, b))
        out.extend(post)
    return out


def same(st, a, b):
    """Definitely identical as written (no choice)."""
    if same_form(st, a, b):
        return True
    return same_form(st, Text(flat(st, a)), Text(flat(st, b)))


def strip(st, t, o):
    """The rest of t behind the prefix o, or None."""
    k = len(o.segs)
    if len(t.segs) > k and same_form(st, Text(t.segs[:k]), o):
        return Text(t.segs[k:])
    x, y = flat(st, t), flat(st, o)
    if len(x) > len(y) and same_form(st, Text(x[:len(y)]), Text(y)):
        return norm(st, x[len(y):])
    return None


def same_form(st, a, b):
    if len(a.segs) != len(b.segs):
        return False
    for x, y in zip(a.segs, b.segs):
        if x[0] != y[0]:
            return False
        if x[0] == "c":
            if isinstance(x[1], TF) or isinstance(y[1], TF):
                if st.simp(st.sub(x[1], y[1])) != 0:
                    return False
            elif x[1] != y[1]:
                return False
        elif x[0] == "t":
            if x[1] is not y[1] or st.simp(st.sub(x[2], y[2])) != 0 or st.simp(st.sub(x[3], y[3])) != 0:
                return False
        elif x[0] == "x":
            if x[1] != y[1]:
                return False
        elif x[0] == "m":
            if x[1] != y[1] or not same(st, Text([x[2]]), Text([y[2]])):
                return False
    return True


def eq(st, a, b, label="text =="):
    """Equality by choice/refinement."""
    a, b = norm(st, a.segs), norm(st, b.segs)
    if same(st, a, b):
        return True
    la, lb = length(st, a), length(st, b)
    if not st.cmp("==", la, lb, label + " length"):
        return False
    n = length(st, a)
    if not isnum(n):
        n = length(st, b)
    if isnum(n):
        for i in range(n):
            x, y = at(st, a, i), at(st, b, i)
            if not st.cmp("==", x, y, label):
                return False
        return True
    # opaque contents
    key = ("texteq", a.segs, b.segs)
    r = st.intern.get(key)
    if r is None:
        st.taint("comparison of opaque texts")
        r = st.choose(2, label) == 0
        st.intern[key] = r
    return r


def cmp3(st, a, b, label="text compare"):
    """Three-way comparison: value with the right sign."""
    a, b = norm(st, a.segs), norm(st, b.segs)
    if same(st, a, b):
        return 0
    i = 0
    while True:
        la, lb = length(st, a), length(st, b)
        ea = st.cmp("<=", la, i, label)
        eb = st.cmp("<=", lb, i, label)
        if ea and eb:
            return 0
        if ea:
            return -1
        if eb:
            return 1
        x, y = at(st, a, i), at(st, b, i)
        if st.cmp("==", x, y, label):
            i += 1
            if i > 40:
                raise Unsupported("unbounded text comparison")
            continue
        d = st.simp(st.sub(x, y))
        if isnum(d):
            return d
        if isinstance(d, TF):
            return d
        return 1 if st.cmp(">", x, y, label) else -1
