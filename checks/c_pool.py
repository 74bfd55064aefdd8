"""S01, S02, S03, S05: abstract interpretation of every operation of simfil::StringPool in bounded histories over abstract
strings (every character value) and abstract ids, with interference of a second thread whenever the lock is (re)acquired."""
import itertools
import os
import time
from engine import prog, lib, text as T
from engine.dom import *
from engine.interp import *
from .core import Result, AnalysisBroken
from .explore import *

SOURCES = ("src/model/string-pool.cpp", "src/exception-handler.cpp")
POOL = "simfil::StringPool"


class Wire:
    """Abstract byte stream: typed items."""

    def __init__(self, items=()):
        self.items = list(items)
        self.error = 0


class WireObj(lib.LibValue):
    def __init__(self, wire, reading):
        self.w = wire
        self.reading = reading
        self.pos = 0

    def _num(self, n, I, a):
        if self.reading:
            if self.w.error or not self.w.items:
                self.w.error = 1
                return
            k, v = self.w.items.pop(0)
            if k != n:
                self.w.error = 1
                self.w.items = []
                return
            t = a[0].t
            I.write(a[0], I.fit(v, t, None, conv=True) if t is not None and t.isint else v)
        else:
            self.w.items.append((n, lib.rd(I, a[0])))

    def m_value1b(self, I, a, loc):
        self._num(1, I, a)

    def m_value2b(self, I, a, loc):
        self._num(2, I, a)

    def m_value4b(self, I, a, loc):
        self._num(4, I, a)

    def m_value8b(self, I, a, loc):
        self._num(8, I, a)

    def m_text1b(self, I, a, loc):
        if self.reading:
            if self.w.error or not self.w.items or self.w.items[0][0] != "t":
                self.w.error = 1
                self.w.items = []
                return
            t = self.w.items.pop(0)[1]
            if len(a) > 1 and I.st.cmp(">", T.length(I.st, t), lib.rd(I, a[1]), "text too long"):
                self.w.error = 1
                self.w.items = []
                return
            a[0].v.set(t)
        else:
            v = lib.val(a[0])
            if isinstance(v, lib.SvObj):
                v.check(I, loc)
            t = lib.as_text(I, a[0])
            if len(a) > 1 and I.st.cmp(">", T.length(I.st, t), lib.rd(I, a[1]), "text too long"):
                I.ub("a text longer than the limit is written", loc)
            self.w.items.append(("t", t))

    def m_adapter(self, I, a, loc):
        return Cell(self)

    def m_error(self, I, a, loc):
        return self.w.error

    def m_flush(self, I, a, loc):
        return None


class Pools:
    """One path: the interpreter plus what the outside world knows about the pool."""

    def __init__(self, p, I, st):
        self.p, self.I, self.st = p, I, st
        self.rid = [r for r, d in p.recs.items() if d.get("n") == POOL or r.endswith(" " + POOL) or r == POOL]
        if not self.rid:
            raise AnalysisBroken("class %s not found" % POOL)
        self.rid = self.rid[0]
        self.watch = set()
        self.accesses = {}
        self.op = None
        self.acq = 0
        self.interfere = None
        self.lockset = {}
        self.nacc = 0
        I.realloc = True
        I.lockhook = self.onlock
        I.libcallhook = self.onlib
        I.readhook = self.onread
        I.writehook = self.onwrite
        I.libctors = {"bitsery::Serializer": lambda I, t, a, l: WireObj(a[0].v.data, False),
                      "bitsery::Deserializer": lambda I, t, a, l: WireObj(a[0].v.data, True)}

    # -- construction and calls
    def ctor(self, n):
        fs = [f for f in self.p.funcs.values() if f.get("cls") == self.rid and f["n"] == POOL + "::StringPool" and len(f["ps"]) == n and "body" in f]
        if not fs:
            return None
        return fs[0]

    def new(self):
        f = self.ctor(0)
        if f is None:
            raise AnalysisBroken("default constructor of StringPool not found")
        w, self.watch = self.watch, set()
        r = self.I.construct(self.rid, f, [], None)
        self.own(r)
        self.watch = w | {id(r)}
        return Cell(r)

    def own(self, r):
        for c in r.f.values():
            c.own = r

    def copy(self, c):
        f = self.ctor(1)
        self.op = "copy constructor"
        self.acq = 0
        if f is None:
            r = self.I.copyrec(c.v)
        else:
            r = self.I.construct(self.rid, f, [c], None)
        self.own(r)
        self.released(c)
        self.watch.add(id(r))
        return Cell(r)

    def method(self, name, n):
        fs = [f for f in self.p.byname.get(POOL + "::" + name, []) if len(f["ps"]) == n and "body" in f]
        if not fs:
            raise AnalysisBroken("%s::%s not found" % (POOL, name))
        return fs[0]

    def call(self, c, name, *args):
        f = self.method(name, len(args))
        self.op = name
        self.acq = 0
        try:
            r = self.I.invoke(f, Ptr(c), list(args), None)
        finally:
            pass
        self.released(c)
        return r.v if isinstance(r, Cell) else r

    def released(self, *cs):
        for c in cs:
            for (r, n), x in c.v.f.items():
                if isinstance(x.v, lib.MutexObj) and (x.v.excl or x.v.shared):
                    raise Fail(self.where(), "%s returns or raises while still holding the lock" % self.op, None)

    def where(self, op=None):
        f = self.p.byname.get(POOL + "::" + (op or self.op or ""), [None])[0]
        return "%s: %s::%s" % ((f["f"].replace(prog.REPO.rstrip("/") + "/", "") if f else "src/model/string-pool.cpp"), POOL, op or self.op)

    def sv(self, t):
        """A caller's string, gone after the call."""
        s = lib.StrObj(t)
        return Cell(lib.SvObj(t, s)), s

    def emplace(self, c, t):
        a, s = self.sv(t)
        r = self.call(c, "emplace", a)
        s.dead = True
        return r

    def get(self, c, t):
        a, s = self.sv(t)
        r = self.call(c, "get", a)
        s.dead = True
        return r

    def resolve(self, c, i):
        r = self.call(c, "resolve", Cell(i))
        if not isinstance(r, lib.OptObj):
            raise Unsupported("resolve result")
        if r.c is None:
            return None
        v = r.c.v
        if isinstance(v, lib.SvObj):
            self.view(c, v, "resolve hands out")
            return v.t
        return lib.as_text(self.I, r.c)

    # -- locks
    def onlock(self, I, kind, mx, loc):
        if kind == "acquire":
            if self.op and self.interfere and self.acq > 0 and not mx.excl and not mx.shared:
                g = self.interfere
                if self.st.choose(2, "another thread runs before the lock is acquired") == 1:
                    self.interfere = None
                    op, self.op = self.op, None
                    acq = self.acq
                    try:
                        g()
                    finally:
                        self.op, self.acq = op, acq
            self.acq += 1

    def field(self, c):
        if isinstance(c, Cell) and isinstance(c.own, Rec) and id(c.own) in self.watch:
            return c.own
        return None

    def guard(self, c, write, loc):
        r = self.field(c)
        if r is None or self.op in (None, "addStaticKey") or isinstance(c.v, (lib.AtomicObj, lib.MutexObj, lib.LockObj)):
            return
        if c.t is not None and c.t.const:
            return
        self.nacc += 1
        held = set()
        for (rr, n), x in r.f.items():
            if isinstance(x.v, lib.MutexObj) and (x.v.excl or (x.v.shared and not write)):
                held.add(n)
        key = c.nm
        ls = self.lockset.get(key)
        ls = held if ls is None else ls & held
        self.lockset[key] = ls
        if not ls:
            w, l = site(I_here(self.I, loc))
            raise Fail(w, "%s of member '%s' without holding the lock%s" % ("modification" if write else "read", c.nm, " exclusively" if write else ""),
                       {"operation": self.op}, l)

    MUT = {"operator[]", "operator=", "push_back", "emplace_back", "emplace", "try_emplace", "insert", "insert_or_assign", "erase", "clear", "pop_back",
           "pop_front", "push_front", "emplace_front", "resize", "reserve", "swap", "merge", "extract", "assign", "rehash", "emplace_hint", "shrink_to_fit"}

    def onlib(self, I, info, this, args, loc):
        m = lib.base_name(info["n"])[1]
        if this is not None and isinstance(this.c.v, StdObj):
            mut = m in self.MUT and not (m == "operator[]" and isinstance(this.c.v, lib.VecObj))
            self.guard(this.c, mut, loc)
        if m in ("move", "forward", "addressof", "ref", "cref", "lock"):
            return
        for a in args:
            if isinstance(a, Cell) and isinstance(a.v, StdObj):
                self.guard(a, m == "swap", loc)

    def onread(self, I, c, node):
        if c.own is not None and not isinstance(c.v, (StdObj, Rec)):
            self.guard(c, False, node)

    def onwrite(self, I, c, node):
        if c.own is not None and not isinstance(c.v, (StdObj, Rec)):
            self.guard(c, True, node)

    # -- views
    def storage(self, c):
        out = set()
        views = []
        seen = set()

        def go(v):
            if id(v) in seen:
                return
            seen.add(id(v))
            if isinstance(v, Cell):
                if not v.dead:
                    go(v.v)
            elif isinstance(v, Ptr):
                pass
            elif isinstance(v, Rec):
                for x in v.f.values():
                    go(x)
            elif isinstance(v, lib.StrObj):
                if not v.dead:
                    out.add(id(v))
            elif isinstance(v, lib.SvObj):
                views.append(v)
            elif isinstance(v, lib.UPtr):
                if isinstance(v.p, Ptr):
                    go(v.p.c)
            elif isinstance(v, StdObj):
                for x in v.walk():
                    go(x)
        go(c)
        return out, views

    def view(self, c, v, who):
        o = v.own
        if o is None:
            return
        store, _ = self.storage(c)
        if isinstance(o, lib.StrObj):
            if o.dead:
                raise Fail(self.where(), "%s a view of a string that was destroyed" % who)
            if o.gen != v.gen:
                raise Fail(self.where(), "%s a view of a string that was modified" % who)
            if id(o) not in store:
                raise Fail(self.where(), "%s a view of a string that the dictionary does not own" % who)

    def views(self, c):
        _, vs = self.storage(c)
        for v in vs:
            self.view(c, v, "the dictionary holds")
        return len(vs)


def I_here(I, loc):
    return I.here(loc) if isinstance(loc, dict) or loc is None else loc


STATIC = [("", 0), ("$sum", 1), ("$val", 2), ("$idx", 3)]


class World:
    """Keys over one abstract character and the history driver."""

    def __init__(self, p, I, st):
        self.P = Pools(p, I, st)
        self.I, self.st = I, st
        c = st.newcs()
        self.c = c

        def tab(f):
            return TF(c, tuple(f(x) for x in range(256)))
        flip = lambda x: x ^ 32 if chr(x).isalpha() and x < 128 else x
        ch = TF(c, tuple(range(256)))
        self.keys = {"A": T.Text([("c", ch)]), "a": T.Text([("c", tab(flip))]), "B": T.Text([("c", ch), ("c", ord("x"))]),
                     "C": T.Text([("c", ord("y")), ("c", tab(flip)), ("c", 200)])}
        self.fold = {"A": "A", "a": "A", "B": "B", "C": "C"}
        self.ids = {}      # folded key -> (id, spelling first seen)
        self.removed = False
        self.full = False

    def eqid(self, x, y):
        d = self.st.simp(self.st.sub(x, y))
        return isnum(d) and d == 0 or (not isnum(d) and self.st.cmp("==", x, y, "same id"))

    def learn(self, key, i, how):
        k = self.fold[key]
        P = self.P
        if k in self.ids:
            if not self.eqid(self.ids[k][0], i):
                raise Fail(P.where("emplace"), "the same string has two different ids", {"how": how})
            return
        if self.st.cmp("<", i, 128, "reserved id"):
            raise Fail(P.where("emplace"), "a dynamic string gets a reserved id", {"how": how})
        for k2, (j, _) in self.ids.items():
            if self.eqid(i, j):
                raise Fail(P.where("emplace"), "two distinct strings share an id", {"how": how})
        self.ids[k] = (i, key)

    # operations; each returns None
    def op_emplace(self, c, key):
        P = self.P
        try:
            i = P.emplace(c, self.keys[key])
        except CxxThrow as e:
            P.released(c)
            if self.fold[key] in self.ids:
                raise Fail(P.where("emplace"), "interning a known string raises an error")
            if not self.full:
                raise Fail(P.where("emplace"), "interning a new string raises an error although ids are left")
            return
        self.learn(key, i, "emplace")

    def check(self, c, deep=True):
        """The pool behaves like the map from strings to ids that was built so far."""
        P, st = self.P, self.st
        for s, i in STATIC:
            t = T.Text([("c", ord(x)) for x in s])
            r = P.get(c, t)
            if not self.eqid(r, i):
                raise Fail(P.where("get"), "the reserved string '%s' does not have its reserved id" % s)
        t = T.Text([("c", ord(x)) for x in "$SUM"])
        if not self.eqid(P.get(c, t), 1):
            raise Fail(P.where("get"), "lookup is not case-insensitive")
        known = 0
        for key in ("A", "a", "B", "C"):
            k = self.fold[key]
            r = P.get(c, self.keys[key])
            if k in self.ids:
                if not self.eqid(r, self.ids[k][0]):
                    raise Fail(P.where("get"), "a stored string is not found under its id", {"key": key})
            elif not self.eqid(r, 0):
                raise Fail(P.where("get"), "a string that was never stored has an id", {"key": key})
        for k, (i, sp) in self.ids.items():
            t = P.resolve(c, i)
            if t is None:
                raise Fail(P.where("resolve"), "the id of a stored string does not resolve")
            if not self.ieq(t, self.keys[sp]):
                raise Fail(P.where("resolve"), "an id resolves to another string")
        h = P.call(c, "highest")
        for k, (i, sp) in self.ids.items():
            if st.cmp("<", h, i, "highest"):
                raise Fail(P.where("highest"), "highest() is below an id in use")
        n = P.call(c, "size")
        if not self.eqid(n, len(STATIC) + len(self.ids)):
            raise Fail(P.where("size"), "size() differs from the number of distinct strings")
        P.call(c, "bytes"), P.call(c, "hits"), P.call(c, "misses")
        P.views(c)

    def ieq(self, a, b):
        """Texts equal up to ASCII letter case (exact when lengths and characters are known)."""
        x, y = T.chars(self.st, a), T.chars(self.st, b)
        if x is None or y is None:
            raise Unsupported("text of unknown length")
        if len(x) != len(y):
            return False
        low = lambda v: self.st.map1(lambda z: z + 32 if 65 <= z <= 90 else z, v) if not isnum(v) else (v + 32 if 65 <= v <= 90 else v)
        return all(self.st.cmp("==", low(p), low(q), "text") for p, q in zip(x, y))


def stream(I, wire):
    return Cell(lib.Opaque("std::stream", wire))


def write(W, c, offset=0):
    w = Wire()
    W.P.call(c, "write", stream(W.I, w), offset)
    return w


def read(W, c, w):
    try:
        W.P.call(c, "read", stream(W.I, w))
        return True
    except CxxThrow:
        W.P.released(c)
        return False


# ---------------------------------------------------------------- scenarios
DEEP = False


def histories():
    ops = ["eA", "ea", "eB", "gA", "copy", "sync"]
    for n in range(0, 4):
        for h in itertools.product(ops, repeat=n):
            yield ("history", h)
    for h in (("eA",), ("ea",), ("eB", "eA"), ("gA",)):
        yield ("race", h)
    for h in ((), ("eA",), ("eA", "eB"), ("eB", "eC", "eA")):
        for off in ("0", "high", "id"):
            yield ("roundtrip", h, off)
    for pre in ((), ("eA",), ("eA", "eB")):
        for ks in (("A",), ("a",), ("B",), ("A", "B"), ("B", "a"), ("A", "A"), ("A", "a")):
            for mode in ("any", "cut"):
                yield ("read", pre, ks, mode)
    for pre in ((), ("eA",)):
        for n in (65533, 65534):
            yield ("exhaust", pre, n)
    yield ("equal", ())
    for n in (15, 16, 127, 128, 255, 256, 257, 1024, 2049) + ((4097, 32768, 65535) if DEEP else ()):
        yield ("long", n)


def scenario(p, s):
    kind = s[0]

    def body(I, st):
        W = World(p, I, st)
        P = W.P
        c = P.new()
        res = {"kind": kind}
        if kind == "history":
            for i, o in enumerate(s[1]):
                if o[0] == "e":
                    W.op_emplace(c, o[1])
                elif o[0] == "g":
                    P.get(c, W.keys[o[1]])
                elif o == "copy":
                    d = P.copy(c)
                    r = P.call(c, "operator==", d)
                    if not lib.istrue(I, r, None):
                        raise Fail(P.where("StringPool"), "a copy differs from its original")
                    P.op = None
                    P.watch.discard(id(c.v))
                    I.destroy_val(c.v)
                    c.dead = True
                    c = d
                elif o == "sync":
                    w = write(W, c)
                    d = P.new()
                    if not read(W, d, w):
                        raise Fail(P.where("read"), "reading back a written dictionary raises an error")
                    c = d
            W.check(c)
        elif kind == "race":
            for o in s[1][:-1]:
                W.op_emplace(c, o[1])
            got = []

            def other():
                k = W.keys["A"]
                got.append(P.emplace(c, k))
            P.interfere = other
            o = s[1][-1]
            if o[0] == "e":
                W.op_emplace(c, o[1])
            else:
                P.get(c, W.keys[o[1]])
            P.interfere = None
            for g in got:
                W.learn("A", g, "second thread")
            W.check(c)
        elif kind == "roundtrip":
            for o in s[1]:
                W.op_emplace(c, o[1])
            d = P.new()
            if s[2] == "0":
                ok = read(W, d, write(W, c))
            elif s[2] == "high":
                ok = read(W, d, write(W, c))
                W.op_emplace(c, "C")
                h = P.call(d, "highest")
                ok = ok and read(W, d, write(W, c, st.add(h, 1)))
            else:
                ids = [i for i, _ in W.ids.values()]
                ok = True
                if ids:
                    w = write(W, c, ids[-1])
                    nums = [x for x in w.items if x[0] == "t"]
                    if len(nums) != 1:
                        raise Fail(P.where("write"), "a partial write from the newest id does not emit exactly one string")
                    # a text before its id would be unreadable anyway
                    ok = read(W, d, w)
                    W.ids = {k: v for k, v in W.ids.items() if W.eqid(v[0], ids[-1])}
            if not ok:
                raise Fail(P.where("read"), "reading back a written dictionary raises an error")
            W.check(d)
            if s[2] != "id":
                r = P.call(c, "operator==", d)
                if not lib.istrue(I, r, None):
                    raise Fail(P.where("read"), "a dictionary that was read back differs from the one written")
                h1, h2 = P.call(c, "highest"), P.call(d, "highest")
                if not W.eqid(h1, h2):
                    raise Fail(P.where("read"), "the next id differs after reading back")
                W.op_emplace(d, "C")
                W.check(d)
        elif kind == "read":
            for o in s[1]:
                W.op_emplace(c, o[1])
            ents = []
            items = [(2, len(s[2]))]
            for n, k in enumerate(s[2]):
                i = st.var(st.newis("id%d" % n, 0, 65535))
                ents.append((k, i))
                items += [(2, i), ("t", W.keys[k])]
            if s[3] == "cut":
                items.pop()
            ok = read(W, c, Wire(items))
            if s[3] == "cut" and ok:
                raise Fail(P.where("read"), "truncated input is not reported")
            for k, i in ents:
                t = P.resolve(c, i)
                g = P.get(c, W.keys[k])
                if ok:
                    if not W.eqid(g, i):
                        raise Fail(P.where("read"), "after reading, a string does not have the id it was read with")
                    if t is None or not W.ieq(t, W.keys[k]):
                        raise Fail(P.where("read"), "after reading, an id does not resolve to the string it was read with")
                elif not W.eqid(g, 0):
                    u = P.resolve(c, g)
                    if u is None or not W.ieq(u, W.keys[k]):
                        raise Fail(P.where("read"), "rejected input leaves a string whose id resolves to something else")
            for k, (i, sp) in W.ids.items():
                if not W.eqid(P.get(c, W.keys[sp]), i):
                    raise Fail(P.where("read"), "reading changes the id of a string that was already stored")
                t = P.resolve(c, i)
                if t is None or not W.ieq(t, W.keys[sp]):
                    raise Fail(P.where("read"), "reading changes the string of an id that was already in use")
            P.views(c)
            if ok:
                # a string interned afterwards never shares an id
                n = T.Text([("c", 1), ("c", 2), ("c", 3), ("c", 4), ("c", 5)])
                try:
                    j = P.emplace(c, n)
                except CxxThrow:
                    P.released(c)
                    j = None
                    if not any(st.cmp(">=", i, 65534, "last id") for _, i in ents):
                        raise Fail(P.where("emplace"), "interning a new string raises an error although ids are left")
                if j is not None:
                    for i in [x for _, x in ents] + [x for x, _ in W.ids.values()]:
                        if W.eqid(i, j):
                            raise Fail(P.where("read"), "a string interned after reading shares the id of a string that was read")
                    if st.cmp("<", j, 128, "reserved id"):
                        raise Fail(P.where("emplace"), "a dynamic string gets a reserved id")
        elif kind == "exhaust":
            for o in s[1]:
                W.op_emplace(c, o[1])
            if not read(W, c, Wire([(2, 1), (2, s[2]), ("t", W.keys["C"])])):
                raise Unsupported("id near the end rejected")
            W.ids["C"] = (s[2], "C")
            W.full = True
            for k in ("B", "A", "B"):
                was = P.call(c, "size")
                before = dict(W.ids)
                W.op_emplace(c, k)
                now = P.call(c, "size")
                if W.fold[k] not in W.ids and not W.eqid(was, now):
                    raise Fail(P.where("emplace"), "running out of ids changes the dictionary")
            W.check(c)
            d = [T.Text([("c", 1)] * n) for n in (6, 7, 8)]
            for t in d:
                try:
                    j = P.emplace(c, t)
                except CxxThrow:
                    P.released(c)
                    if not W.eqid(P.get(c, t), 0):
                        raise Fail(P.where("emplace"), "a string is stored although running out of ids was reported")
                    continue
                for i, _ in W.ids.values():
                    if W.eqid(i, j):
                        raise Fail(P.where("emplace"), "after the ids ran out, an id is handed out twice")
                if st.cmp("<", j, 128, "reserved id"):
                    raise Fail(P.where("emplace"), "after the ids ran out, a reserved id is handed out")
                W.ids["x%d" % len(W.ids)] = (j, "A")
        elif kind == "long":
            I.step_limit = 1 << 60
            I.max_iter = 1 << 20
            n = s[1]
            W.keys["L"] = T.Text([("c", 97 + i % 23) for i in range(n)])
            W.fold["L"] = "L"
            W.op_emplace(c, "L")
            W.op_emplace(c, "B")
            d = P.new()
            if not read(W, d, write(W, c)):
                raise Fail(P.where("read"), "reading back a written dictionary raises an error", {"string length": n})
            for x in (c, d):
                for k in ("L", "B"):
                    if not W.eqid(P.get(x, W.keys[k]), W.ids[W.fold[k]][0]):
                        raise Fail(P.where("read" if x is d else "get"), "a written string is not found under its id after reading" if x is d else
                                   "a stored string is not found under its id", {"string length": n})
                t = P.resolve(x, W.ids["L"][0])
                if t is None or not isnum(T.length(st, t)) or T.length(st, t) != n:
                    raise Fail(P.where("read" if x is d else "resolve"), "a long string is cut when it is written or read" if x is d else
                               "an id resolves to another string", {"string length": n})
        elif kind == "equal":
            d = P.new()
            if not lib.istrue(I, P.call(c, "operator==", d), None):
                raise Fail(P.where("operator=="), "two fresh dictionaries differ")
            if not lib.istrue(I, P.call(c, "operator==", c), None):
                raise Fail(P.where("operator=="), "a dictionary differs from itself")
            W.op_emplace(c, "A")
            if lib.istrue(I, P.call(c, "operator==", d), None):
                raise Fail(P.where("operator=="), "dictionaries with different content are equal")
        res["accesses"] = P.nacc
        res["locksets"] = {k: sorted(v) for k, v in P.lockset.items()}
        return res
    return body


def classify(where, what):
    if "lock" in what:
        return "S01"
    if "view" in what or "string_view" in what:
        return "S03"
    if "read" in what or "write" in what or "truncated" in what or "copy differs" in what:
        return "S05" if "copy" not in what else "S03"
    return "S02"


_memo = {}


def run(p, deadline):
    jobs = sorted(histories(), key=lambda j: -j[1] if j[0] == "long" else 0)

    def one(j):
        return j, explore(p, scenario(p, j), max_paths=400, deadline=deadline)
    return parallel(one, jobs)


OPS = {"S01": None, "S02": ("history", "race", "exhaust", "read"), "S03": ("history", "race", "roundtrip", "read"),
       "S05": ("roundtrip", "read", "equal", "history")}


def check(pid, tier):
    global DEEP
    DEEP = tier == "thorough"
    p = prog.load([os.path.join(prog.REPO, s) for s in SOURCES])
    rs = run(p, time.time() + (400 if tier == "quick" else 800))
    res = Result()
    tot = Out()
    kinds = {}
    for j, o in rs:
        tot.merge(o)
        kinds.setdefault(j[0], [0, 0])
        kinds[j[0]][0] += 1
        kinds[j[0]][1] += o.paths
        for (w, what, d, l) in o.fails:
            if classify(w, what) == pid:
                res.add(w, what, {"scenario": j, "detail": d}, l)
    acc = sum(x.get("accesses", 0) for x in tot.data)
    if not tot.done:
        res.notes.append("INCONCLUSIVE: " + "; ".join(list(tot.unsupported)[:3]))
    res.coverage = {
        "explanation": "abstract interpretation of every StringPool operation in all listed histories; strings range over one abstract character "
                       "(all 256 values), ids in input streams over the whole 16-bit range; a second thread may run at every lock acquisition after the first",
        "summary": "%d scenarios, %d paths, %d guarded member accesses" % (len(rs), tot.paths, acc),
        "scenarios": {k: {"scenarios": a, "paths": b} for k, (a, b) in kinds.items()}, "paths": tot.paths, "paths_decided": tot.done,
        "interpreted_steps": tot.steps, "member_accesses_checked": acc,
        "inconclusive": tot.unsupported, "functions": sorted({p.funcs[i]["n"] for i in tot.covered if i in p.funcs}),
        "locksets": next((x["locksets"] for x in tot.data if x.get("locksets")), {}),
        "samples": [str(j) for j, _ in rs[:3]],
    }
    res.assumptions = ["the classic locale is the global locale", "std::shared_mutex, std::unordered_map and std::deque behave as the standard says",
                       "strings differ only in the characters the comparator looks at (S04)", "addStaticKey is documented as not thread-safe and exempt from S01",
                       "histories of up to three operations from an empty dictionary, plus arbitrary (abstract) ids through read()"]
    return res
