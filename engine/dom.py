"""Abstract scalar domain and path state.

Values: python int / Fraction (constants), TF (function of one tape character,
as a table over the 256 byte values), Poly (polynomial over abstract atoms).
Atoms: CS character symbol (domain: set of bytes), IS number symbol (domain:
interval), Pw (power of ten), Op (uninterpreted operation).  No solver is
involved: every question is answered by the finite domains or by a choice that
refines them.
"""
from fractions import Fraction

FULL = (1 << 256) - 1
BIG = 1 << 62


class PathEnd(Exception):
    """The path ends here (merged with an explored state, cut, or finished)."""

    def __init__(self, why):
        Exception.__init__(self, why)
        self.why = why


class NoFork(Exception):
    """A choice would be needed while a condition is evaluated as a table."""


class Unsupported(Exception):
    """The analysis has no transfer function for a construct: no verdict on this path."""


class CS:
    __slots__ = ("id", "pos", "tag")
    kind = "c"

    def __repr__(self):
        return "c%d" % self.id


class IS:
    __slots__ = ("id", "tag", "real", "wid", "def_")
    kind = "i"

    def __repr__(self):
        return "%s%d" % (self.tag or "i", self.id)


class TF:
    """Table function of one character symbol."""
    __slots__ = ("s", "tab", "_h", "id", "real")
    kind = "t"

    def __init__(self, s, tab):
        self.s = s
        self.tab = tab
        self.id = None

    def __eq__(self, o):
        return isinstance(o, TF) and o.s is self.s and o.tab == self.tab

    def __hash__(self):
        return hash((self.s.id, self.tab))

    def __repr__(self):
        return "T(%r)" % (self.s,)


class Pw:
    """base ** poly, base a positive constant > 1"""
    __slots__ = ("id", "base", "e")
    kind = "p"

    def __repr__(self):
        return "%d^(%r)" % (self.base, self.e)


class Op:
    __slots__ = ("id", "op", "args", "ty", "lo", "hi")
    kind = "o"
    real = False

    def __repr__(self):
        return "%s%r" % (self.op, self.args)


class Poly:
    __slots__ = ("d", "_h")

    def __init__(self, d):
        self.d = d
        self._h = None

    def __eq__(self, o):
        return isinstance(o, Poly) and self.d == o.d

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.d.items()))
        return self._h

    def __repr__(self):
        return "Poly" + repr(sorted(self.d.items(), key=repr))


class FSpecial:
    """inf / nan"""

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return self.n


def fspecial_cmp(st, a, b):
    """Sign of a - b with at least one infinity or NaN; None: unordered."""
    def rank(v):
        if isinstance(v, FSpecial):
            if v.n in ("inf", "-inf"):
                return 1 if v.n == "inf" else -1
            if v.n == "nan":
                return None
            raise Unsupported("comparison with special float")
        for s in st.syms(v) if not isnum(v) else ():
            if st.nan.get(s):
                raise Unsupported("comparison of special float with a possible NaN")
        return 0
    x, y = rank(a), rank(b)
    if x is None or y is None:
        return None
    return (x > y) - (x < y)


def fspecial_op(st, op, a, b):
    """IEEE result for + - * / with at least one infinity or NaN."""
    for v in (a, b):
        if isinstance(v, FSpecial) and v.n == "nan":
            return v
        if isinstance(v, FSpecial) and v.n not in ("inf", "-inf"):
            raise Unsupported("arithmetic with special float")

    def sign(v):
        if isinstance(v, FSpecial):
            return 1 if v.n == "inf" else -1
        if st.cmp(">", v, 0, "float sign"):
            return 1
        return 0 if st.cmp("==", v, 0, "float sign") else -1
    sp = lambda k: FSpecial("inf" if k > 0 else "-inf")
    ia, ib = isinstance(a, FSpecial), isinstance(b, FSpecial)
    if op in "+-":
        k = 1 if op == "+" else -1
        if ia and ib:
            return a if sign(a) == k * sign(b) else FSpecial("nan")
        return a if ia else sp(k * sign(b))
    if op == "*":
        k = sign(a) * sign(b)
        return FSpecial("nan") if k == 0 else sp(k)
    if op == "/":
        if ia and ib:
            return FSpecial("nan")
        if ib:
            return 0
        k = sign(b)
        if k == 0:
            raise Unsupported("division of infinity by zero")
        return sp(sign(a) * k)
    raise Unsupported("arithmetic with special float")


SIGNED = tuple(i if i < 128 else i - 256 for i in range(256))
UNSIGNED = tuple(range(256))
NUM = (int, Fraction)


def mask_of(pred):
    m = 0
    for i in range(256):
        if pred(i):
            m |= 1 << i
    return m


def bits(m):
    out = []
    i = 0
    while m:
        if m & 1:
            out.append(i)
        m >>= 1
        i += 1
    return out


def isnum(v):
    return isinstance(v, (int, Fraction))


def red(v):
    if isinstance(v, Fraction) and v.denominator == 1:
        return v.numerator
    return v


SIGNS = {"<": (-1,), "<=": (-1, 0), ">": (1,), ">=": (1, 0), "==": (0,), "!=": (-1, 1)}


class State:
    def __init__(self, script=()):
        self.script = list(script)
        self.trail = []  # (n, chosen, label)
        self.n = 0
        self.dom = {}
        self.iv = {}
        self.nan = {}
        self.facts = {}
        self.atoms = {}
        self.intern = {}
        self.norm = {}
        self.taints = []
        self.events = []
        self.nofork = 0

    # -- choices
    def choose(self, n, label=""):
        if n == 1:
            return 0
        if self.nofork:
            raise NoFork()
        i = len(self.trail)
        c = self.script[i] if i < len(self.script) else 0
        if c >= n:
            raise Unsupported("nondeterministic replay at %s" % (label,))
        self.trail.append((n, c, label))
        return c

    def replaying(self):
        return len(self.trail) < len(self.script)

    def taint(self, why):
        if why not in self.taints:
            self.taints.append(why)

    # -- symbols
    def _id(self, a):
        self.n += 1
        a.id = self.n
        self.atoms[self.n] = a
        return a

    def newcs(self, pos=None, mask=FULL, tag=None):
        c = self._id(CS())
        c.pos = pos
        c.tag = tag
        self.dom[c] = mask
        return c

    def newis(self, tag="", lo=None, hi=None, real=False, wid=False, nan=False):
        c = self._id(IS())
        c.tag = tag
        c.real = real
        c.wid = wid
        c.def_ = None
        self.iv[c] = (lo, hi)
        if nan:
            self.nan[c] = True
        return c

    def sym(self, *a, **k):
        return self.var(self.newis(*a, **k))

    def var(self, a):
        return Poly({((a.id, 1),): 1})

    def tfatom(self, t):
        key = ("t", t.s.id, t.tab)
        x = self.intern.get(key)
        if x is None:
            x = TF(t.s, t.tab)
            self._id(x)
            self.intern[key] = x
        return x

    def pw(self, base, e):
        """base ** e for an abstract exponent"""
        if isnum(e):
            e = Fraction(e)
            if e.denominator == 1 and abs(e) < 2000:
                return red(Fraction(base) ** int(e))
            raise Unsupported("power")
        e = self.poly(e)
        # split constant part: base^(e+k) = base^k * base^e
        k = e.d.get((), 0)
        rest = dict(e.d)
        rest.pop((), None)
        # canonical sign
        first = rest[sorted(rest)[0]]
        exp = 1
        if first < 0:
            rest = {m: -c for m, c in rest.items()}
            exp = -1
        r = Poly(rest)
        key = ("p", base, r)
        x = self.intern.get(key)
        if x is None:
            x = Pw()
            x.base = base
            x.e = r
            self._id(x)
            self.intern[key] = x
        return self.mul(red(Fraction(base) ** int(k)), Poly({((x.id, exp),): 1}))

    def opq(self, op, args, ty=None, lo=None, hi=None):
        key = ("o", op, tuple(self.key(a) for a in args), ty.key if ty else None)
        x = self.intern.get(key)
        if x is None:
            x = Op()
            x.op = op
            x.args = tuple(args)
            x.ty = ty
            if lo is None and hi is None and ty is not None and ty.isint:
                lo, hi = ty.range()
            x.lo, x.hi = lo, hi
            self._id(x)
            self.intern[key] = x
            self.iv[x] = (lo, hi)
        return self.var(x)

    def key(self, v):
        v = self.simp(v)
        if isinstance(v, TF):
            return ("T", v.s.id, self.restrict(v))
        return v

    def restrict(self, t):
        m = self.dom[t.s]
        return tuple(t.tab[i] if m >> i & 1 else None for i in range(256))

    # -- normal forms
    def poly(self, v):
        if isinstance(v, Poly):
            return v
        if isinstance(v, TF):
            return Poly({((self.tfatom(v).id, 1),): 1})
        if isinstance(v, bool):
            v = int(v)
        if isnum(v):
            return Poly({(): v} if v != 0 else {})
        raise Unsupported("not a number: %r" % (v,))

    def unpoly(self, p):
        d = p.d
        if not d:
            return 0
        if len(d) == 1:
            (m, c), = d.items()
            if m == ():
                return red(c)
        # function of a single character symbol?
        s = None
        for m in d:
            for a, e in m:
                x = self.atoms[a]
                if x.kind != "t" or e < 0:
                    return p
                if s is None:
                    s = x.s
                elif s is not x.s:
                    return p
        if s is None:
            return p
        dm = self.dom[s]
        tab = []
        for i in range(256):
            if not dm >> i & 1:
                tab.append(None)
                continue
            t = 0
            for m, c in d.items():
                x = c
                for a, e in m:
                    v = self.atoms[a].tab[i]
                    if v is None:
                        return p
                    x = x * v ** e
                t += x
            tab.append(red(t))
        return TF(s, tuple(tab))

    def simp(self, v):
        if isinstance(v, TF):
            m = self.dom[v.s]
            tab = v.tab
            first = None
            got = False
            for i in range(256):
                if m >> i & 1:
                    x = tab[i]
                    if not got:
                        first, got = x, True
                    elif x != first:
                        return v
            if not got:
                raise PathEnd("empty domain")
            return first
        if isinstance(v, Poly):
            ch = False
            for m in v.d:
                for a, e in m:
                    x = self.atoms[a]
                    if x.kind == "t":
                        y = self.simp(x)
                        if isnum(y) or self.dom[x.s] != self.norm.get(a):
                            ch = True
                    elif x.kind in "io":
                        lo, hi = self.iv[x]
                        if lo is not None and lo == hi and not self.nan.get(x):
                            ch = True
                    elif x.kind == "p":
                        y = self.simp(x.e)
                        if isnum(y):
                            ch = True
            if not ch:
                return self.unpoly(v)
            r = 0
            for m, c in v.d.items():
                t = c
                for a, e in m:
                    x = self.atoms[a]
                    y = None
                    if x.kind == "t":
                        y = self.simp(x)
                        if not isnum(y):
                            # one atom per function on the current domain
                            n = self.tfatom(TF(x.s, self.restrict(x)))
                            self.norm[n.id] = self.dom[x.s]
                            t = self.mul(t, Poly({((n.id, e),): 1}))
                            continue
                    elif x.kind in "io":
                        lo, hi = self.iv[x]
                        if lo is not None and lo == hi and not self.nan.get(x):
                            y = lo
                    elif x.kind == "p":
                        y = self.simp(x.e)
                        y = red(Fraction(x.base) ** int(y)) if isnum(y) else None
                    if y is None:
                        t = self.mul(t, Poly({((a, e),): 1}))
                    else:
                        t = self.mul(t, red(Fraction(y) ** e))
                r = self.add(r, t)
            return self.unpoly(r) if isinstance(r, Poly) else r
        return v

    # -- arithmetic (ideal)
    def add(self, a, b):
        if isnum(a) and isnum(b):
            return red(a + b)
        if isinstance(a, TF) and isinstance(b, TF) and a.s is b.s:
            return TF(a.s, tuple(None if x is None or y is None else x + y for x, y in zip(a.tab, b.tab)))
        if isinstance(a, TF) and isnum(b):
            return TF(a.s, tuple(None if x is None else x + b for x in a.tab))
        if isinstance(b, TF) and isnum(a):
            return self.add(b, a)
        p, q = self.poly(a), self.poly(b)
        d = dict(p.d)
        for m, c in q.d.items():
            t = d.get(m, 0) + c
            if t == 0:
                d.pop(m, None)
            else:
                d[m] = red(t)
        return self.unpoly(Poly(d))

    def neg(self, a):
        return self.mul(-1, a)

    def sub(self, a, b):
        return self.add(a, self.neg(b))

    def mul(self, a, b):
        if isnum(a) and isnum(b):
            return red(a * b)
        if isnum(a):
            a, b = b, a
        if isnum(b):
            if b == 0:
                return 0
            if isinstance(a, TF):
                return TF(a.s, tuple(None if x is None else x * b for x in a.tab))
            return Poly({m: red(c * b) for m, c in a.d.items()})
        if isinstance(a, TF) and isinstance(b, TF) and a.s is b.s:
            return TF(a.s, tuple(None if x is None or y is None else x * y for x, y in zip(a.tab, b.tab)))
        p, q = self.poly(a), self.poly(b)
        if len(p.d) * len(q.d) > 400:
            raise Unsupported("polynomial too large")
        d = {}
        for m, c in p.d.items():
            for n, e in q.d.items():
                k = {}
                for x, y in m + n:
                    k[x] = k.get(x, 0) + y
                mm = tuple(sorted((x, y) for x, y in k.items() if y))
                t = d.get(mm, 0) + c * e
                if t == 0:
                    d.pop(mm, None)
                else:
                    d[mm] = red(t)
        return self.unpoly(Poly(d))

    def divreal(self, a, b):
        b = self.simp(b)
        if isnum(b):
            if b == 0:
                raise Unsupported("float division by zero")
            return self.mul(a, red(Fraction(1) / Fraction(b)))
        if isinstance(b, Poly) and len(b.d) == 1:
            (m, c), = b.d.items()
            if all(self.atoms[x].kind == "p" for x, _ in m):
                inv = Poly({tuple((x, -e) for x, e in m): red(Fraction(1) / Fraction(c))})
                return self.mul(a, inv)
        return self.opq("fdiv", (a, b))

    def map1(self, f, a):
        """Pointwise function of a character-determined value, or None."""
        if isinstance(a, TF):
            return TF(a.s, tuple(None if x is None else f(x) for x in a.tab))
        if isnum(a):
            return f(a)
        return None

    # -- bounds
    def bounds(self, v):
        v = self.simp(v)
        if isnum(v):
            return v, v
        if isinstance(v, TF):
            m = self.dom[v.s]
            xs = [v.tab[i] for i in bits(m)]
            if any(x is None for x in xs):
                return None, None
            return min(xs), max(xs)
        lo = hi = 0
        for m, c in v.d.items():
            a, b = c, c
            if c < 0:
                a = b = 1
            for x, e in m:
                y = self.atoms[x]
                if y.kind == "t":
                    l, h = self.bounds(y)
                elif y.kind == "p":
                    l, h = 0, None
                    el, eh = self.bounds(y.e)
                    if el is not None and el >= 0:
                        l = 1
                    if e < 0:
                        l, h = 0, (1 if l == 1 else None)
                        e = -e
                else:
                    l, h = self.iv[y]
                    if self.nan.get(y):
                        l = h = None
                if e < 0:
                    return None, None
                for _ in range(e):
                    a, b = mulint(a, b, l, h)
            if c < 0:
                a, b = mulint(a, b, c, c)
            lo = None if lo is None or a is None else lo + a
            hi = None if hi is None or b is None else hi + b
        return lo, hi

    def syms(self, v, out=None):
        if out is None:
            out = []
        if isinstance(v, TF):
            if v.s not in out:
                out.append(v.s)
        elif isinstance(v, Poly):
            for m in v.d:
                for a, e in m:
                    x = self.atoms[a]
                    if x.kind == "t":
                        if x.s not in out:
                            out.append(x.s)
                    elif x.kind == "p":
                        self.syms(x.e, out)
                    elif x not in out:
                        out.append(x)
        return out

    # -- refinement
    def refine(self, s, mask):
        m = self.dom[s] & mask
        if not m:
            raise PathEnd("empty domain")
        self.dom[s] = m

    def split(self, parts, label):
        """Chooses one of the non-empty masks [(cs, mask)], refines, returns index."""
        live = [(i, s, self.dom[s] & m) for i, (s, m) in enumerate(parts) if self.dom[s] & m]
        if not live:
            raise PathEnd("empty domain")
        k = self.choose(len(live), label)
        i, s, m = live[k]
        self.dom[s] = m
        return i

    def tsplit(self, t, pred, label):
        """Truth of pred(value) for TF t."""
        m = 0
        dm = self.dom[t.s]
        for i in range(256):
            if dm >> i & 1 and pred(t.tab[i]):
                m |= 1 << i
        return self.split([(t.s, m), (t.s, ~m & FULL)], label) == 0

    def enum(self, t, label, limit=40):
        """Fixes the value of TF t by choice; returns the constant."""
        dm = self.dom[t.s]
        vals = {}
        for i in bits(dm):
            vals.setdefault(t.tab[i], 0)
            vals[t.tab[i]] |= 1 << i
        if len(vals) > limit:
            raise Unsupported("too many values for %s" % label)
        ks = sorted(vals, key=repr)
        i = self.split([(t.s, vals[k]) for k in ks], label)
        return ks[i]

    def cmp(self, op, a, b, label=""):
        if isinstance(a, FSpecial) or isinstance(b, FSpecial):
            r = fspecial_cmp(self, a, b)
            return op == "!=" if r is None else r in SIGNS[op]
        d = self.sub(a, b)
        return self.decide(d, SIGNS[op], label)

    def truth(self, v, label=""):
        """Boolean value of a scalar."""
        v = self.simp(v)
        if isnum(v):
            return v != 0
        return self.decide(v, (-1, 1), label)

    def decide(self, d, signs, label=""):
        d = self.simp(d)
        sgn = lambda x: (x > 0) - (x < 0)
        if isnum(d):
            return sgn(d) in signs
        if isinstance(d, TF):
            return self.tsplit(d, lambda x: sgn(x) in signs, label)
        atoms = sorted({a for m in d.d for a, e in m})
        objs = [self.atoms[a] for a in atoms]
        lo, hi = self.bounds(d)
        poss = {-1, 0, 1}
        if not any(self.nan.get(o) for o in objs):
            if lo is not None:
                if lo > 0:
                    poss = {1}
                elif lo == 0:
                    poss -= {-1}
            if hi is not None:
                if hi < 0:
                    poss = {-1} if hi < 0 else poss
                elif hi == 0:
                    poss -= {1}
            if not (poss - set(signs)):
                return True
            if not (poss & set(signs)):
                return False
        linear = all(len(m) <= 1 and all(e == 1 for _, e in m) for m in d.d)
        k = d.d.get((), 0)
        if linear and len(objs) == 1 and objs[0].kind in "io":
            return self.decide1(objs[0], d.d[((atoms[0], 1),)], k, signs, label)
        if len(objs) == 1 and objs[0].kind == "p" and len(d.d) == 2 and () in d.d:
            (m,) = [m for m in d.d if m != ()]
            c = d.d[m]
            e = m[0][1]
            t = Fraction(-k) / Fraction(c)
            # sign(c*base^(e*x) + k) = sign(c) * sign(base^(e*x) - t)
            if t <= 0:
                return sgn(c) in signs
            p = self.log(objs[0].base, t)
            if p is not None:
                x = self.sub(self.mul(e, objs[0].e), p)
                s2 = tuple(s * sgn(c) for s in signs)
                return self.decide(x, s2, label)
        tfs = [o for o in objs if o.kind == "t"]
        if tfs:
            # fix the character classes first when that is a small split
            t = tfs[0]
            vals = {t.tab[i] for i in bits(self.dom[t.s])}
            if len(vals) <= 32:
                self.enum(t, label)
                return self.decide(d, signs, label)
        # relational fact
        key, flip = self.factkey(d)
        sg = {s * flip for s in signs}
        cur = self.facts.get(key)
        if cur is None:
            cur = frozenset(s * flip for s in poss)
        if self.isdiff(key) and all(self.isdiff(o) for o in self.facts):
            cur = frozenset(s for s in cur if self.feasible(key, {s}))
            if not cur:
                raise PathEnd("infeasible")
        elif key not in self.facts:
            names = set(self.syms(d))
            for o in self.facts:
                if names & set(self.syms(o)) and o != key:
                    self.taint("relational facts over shared symbols")
        t, f = cur & sg, cur - sg
        if any(isinstance(o, IS) and o.wid for o in objs):
            self.taint("branch on a widened value")
        if not f:
            return True
        if not t:
            return False
        if self.choose(2, label) == 0:
            self.facts[key] = frozenset(t)
            return True
        self.facts[key] = frozenset(f)
        return False

    def isdiff(self, d):
        """d is x - y + k, x + k or k - x over integer interval symbols."""
        ms = [m for m in d.d if m != ()]
        if len(ms) > 2 or any(len(m) != 1 or m[0][1] != 1 for m in ms):
            return False
        if any(self.atoms[m[0][0]].kind != "i" or getattr(self.atoms[m[0][0]], "real", False) or self.nan.get(self.atoms[m[0][0]]) for m in ms):
            return False
        cs = [d.d[m] for m in ms]
        return all(abs(c) == 1 for c in cs) and (len(cs) < 2 or cs[0] == -cs[1]) and isinstance(d.d.get((), 0), int)

    def feasible(self, key=None, signs=None):
        """Difference-bound consistency of all difference facts (and one more) with the intervals."""
        fs = [(k, set(s)) for k, s in self.facts.items() if self.isdiff(k) and k != key]
        if key is not None:
            fs.append((key, set(signs)))
        names = sorted({a for k, _ in fs for m in k.d for a, e in m})
        n = len(names) + 1
        ix = {a: i + 1 for i, a in enumerate(names)}
        INF = float("inf")
        D = [[INF] * n for _ in range(n)]    # D[i][j]: x_j - x_i <= D
        for i in range(n):
            D[i][i] = 0

        def put(i, j, w):
            D[i][j] = min(D[i][j], w)
        for a in names:
            lo, hi = self.iv[self.atoms[a]]
            if hi is not None:
                put(0, ix[a], hi)
            if lo is not None:
                put(ix[a], 0, -lo)
        ne = []
        for k, s in fs:
            c = k.d.get((), 0)
            x = y = 0
            for m, co in k.d.items():
                if m != ():
                    if co > 0:
                        x = ix[m[0][0]]
                    else:
                        y = ix[m[0][0]]
            # sign of x - y + c
            if s <= {-1, 0}:
                put(y, x, -c - (0 if 0 in s else 1))
            if s <= {0, 1}:
                put(x, y, c - (0 if 0 in s else 1))
            if s == {-1, 1}:
                ne.append((x, y, c))
        for k in range(n):
            for i in range(n):
                for j in range(n):
                    w = D[i][k] + D[k][j]
                    if w < D[i][j]:
                        D[i][j] = w
        if any(D[i][i] < 0 for i in range(n)):
            return False
        return not any(D[y][x] <= -c and D[x][y] <= c for x, y, c in ne)

    @staticmethod
    def log(base, t):
        n = 0
        t = Fraction(t)
        while t > 1 and t.denominator == 1 and t.numerator % base == 0:
            t /= base
            n += 1
        while t < 1 and t.numerator == 1 and t.denominator % base == 0:
            t *= base
            n -= 1
        return n if t == 1 else None

    def factkey(self, d):
        ms = sorted(m for m in d.d if m != ())
        c = d.d[ms[0]]
        flip = 1 if c > 0 else -1
        f = Fraction(1) / Fraction(c)
        return Poly({m: red(x * f) for m, x in d.d.items()}), flip

    def decide1(self, x, c, k, signs, label):
        """Truth of sign(c*x + k) in signs for one interval symbol, refining its interval."""
        lo, hi = self.iv[x]
        real = getattr(x, "real", False)
        z = Fraction(-k) / Fraction(c)
        s = set(signs)
        if c < 0:
            s = {-a for a in s}
        # regions of x relative to z
        regs = []
        eps = Fraction(1, 1 << 20)
        if real:
            regs.append((-1, None, z - eps))
            regs.append((0, z, z))
            regs.append((1, z + eps, None))
        elif z.denominator == 1:
            z = int(z)
            regs = [(-1, None, z - 1), (0, z, z), (1, z + 1, None)]
        else:
            fl = z.numerator // z.denominator
            regs = [(-1, None, fl), (1, fl + 1, None)]
        live = []
        for g, a, b in regs:
            l = a if lo is None else lo if a is None else max(lo, a)
            h = b if hi is None else hi if b is None else min(hi, b)
            if l is not None and h is not None and l > h:
                continue
            live.append((g, l, h))
        t = merge([(l, h) for g, l, h in live if g in s], real)
        f = merge([(l, h) for g, l, h in live if g not in s], real)
        opts = [(True, r) for r in t] + [(False, r) for r in f]
        if self.nan.get(x):
            # NaN compares false with everything except !=
            opts.append((0 not in s and len(s) == 2, None))
        if len({o[0] for o in opts}) > 1 and getattr(x, "wid", False):
            self.taint("branch on a widened value")
        if len({o[0] for o in opts}) == 1 and not self.nan.get(x):
            return opts[0][0]
        i = self.choose(len(opts), label)
        r, iv = opts[i]
        if iv is None:
            self.nan[x] = "yes"
        else:
            self.iv[x] = iv
            self.nan.pop(x, None)
        return r


def mulint(a, b, l, h):
    """Interval product; None is unbounded on that side."""
    if a is not None and b is not None and a == b == 0:
        return 0, 0
    if l is not None and h is not None and l == h == 0:
        return 0, 0
    INF = float("inf")
    A = -INF if a is None else a
    B = INF if b is None else b
    L = -INF if l is None else l
    H = INF if h is None else h
    ps = []
    for x in (A, B):
        for y in (L, H):
            if x == 0 or y == 0:
                ps.append(0)
            elif isinstance(x, float) or isinstance(y, float):
                ps.append(INF if (x > 0) == (y > 0) else -INF)
            else:
                ps.append(x * y)
    lo, hi = min(ps), max(ps)
    return (None if lo == -INF else lo), (None if hi == INF else hi)


def merge(rs, real):
    """Merges adjacent intervals."""
    out = []
    for l, h in rs:
        if out:
            pl, ph = out[-1]
            if ph is not None and l is not None and (l - ph <= (Fraction(1, 1 << 19) if real else 1)):
                out[-1] = (pl, h)
                continue
        out.append((l, h))
    return out
