"""L01-L05: the tokenizer against the reference automaton (reflex.py), as a fixpoint over loop heads.

Every loop head of the tokenizer is an abstract state (program state + reference state over one abstract
tape).  Quantities are renamed relative to the reference's landmarks (token begin, current position, input
end, value of the literal so far, text so far), so that the set of abstract states is finite and covers
inputs of every length; states are explored until no new one appears."""
import hashlib
import multiprocessing as mp
import os
import time
from engine import prog, interp, lib, text as T
from engine.dom import *
from engine.interp import *
from .reflex import *

BIG = (1 << 31) - 16     # assumption: queries are shorter than 2 GiB

KNOWN_WORD = 7      # characters of a word kept exactly (longest keyword + 1)
TOKEN = "simfil::Token"


# positions are singles; distances are differences of two landmarks
COMBOS = [(1, 0, 0), (0, 1, 0), (0, 0, 1), (-1, 0, 1), (0, -1, 1), (1, -1, 0), (-1, 0, 0), (0, -1, 0), (0, 0, -1),
          (1, 0, -1), (0, 1, -1), (-1, 1, 0), (1, 1, 0), (2, 0, 0)]


class Viol(Exception):
    def __init__(self, prop, msg, loc=None):
        Exception.__init__(self, msg)
        self.prop = prop
        self.msg = msg
        self.loc = loc


class HeadCut(Exception):
    def __init__(self, key):
        Exception.__init__(self)
        self.key = key


def isscalar(v):
    return isinstance(v, (int, Fraction, TF, Poly)) and not isinstance(v, bool)


SKIP = {"dropped", "moved", "et", "kt", "vt", "types", "sig", "kind", "t_", "gen", "rid", "nm", "dead", "own"}


class Walk:
    """Visits every abstract value reachable from the interpreter state, with a structural path."""

    def __init__(self, I, leaf):
        self.I = I
        self.leaf = leaf
        self.seen = {}
        self.keep = []

    def run(self):
        out = []
        for i, fr in enumerate(self.I.frames):
            out.append(("F", fr.fn.get("n"), fr.site if isinstance(fr.site, (int, str)) else None))
            for k, c in fr.vars.items():
                if isinstance(c, Cell) and c.dead:
                    continue
                out.append((k, self.v(c, "%d.%s" % (i, k))))
            out.append(self.v(fr.this, "%d.this" % i))
            out.append(self.v(fr.ret, "%d.ret" % i))
            for j, c in enumerate(fr.temps):
                out.append(self.v(c, "%d.tmp%d" % (i, j)))
            if fr.cap:
                for k, (c, r) in fr.cap["cap"].items():
                    out.append((k, self.v(c, "%d.cap%s" % (i, k))))
        for k in sorted(self.I.statics):
            c = self.I.statics[k]
            if c.t is not None and (c.t.const or (c.t.k == "a" and c.t.to.const)):
                continue
            out.append((k, self.v(c, "static.%s" % k)))
        return out

    def v(self, v, path):
        if v is None or isinstance(v, (str, bool, bytes)):
            return v
        if isscalar(v):
            return self.leaf(path, v, None)[1]
        if isinstance(v, T.Text):
            return self.leaf(path, v, None)[1]
        i = id(v)
        if i in self.seen:
            return ("@", self.seen[i])
        if isinstance(v, (prog.Ty,)):
            return v.key
        if isinstance(v, dict):
            return tuple((str(k), self.v(x, path + "." + str(k))) for k, x in v.items())
        if isinstance(v, (list, tuple)):
            if isinstance(v, list):
                self.seen[i] = len(self.seen)
                self.keep.append(v)
                return tuple(self.item(v, k, path) for k in range(len(v)))
            return tuple(self.v(x, "%s.%d" % (path, k)) for k, x in enumerate(v))
        if isinstance(v, (FnV, MemFn)):
            return ("fn", v.info.get("id"))
        if v is UNINIT or v is NULL:
            return repr(v)
        if callable(v) and not isinstance(v, StdObj):
            return "fn"
        self.seen[i] = len(self.seen)
        self.keep.append(v)
        if isinstance(v, Cell):
            if v.dead:
                return "dead"
            return self.attr(v, "v", path)
        if isinstance(v, Ptr):
            return ("p", self.v(v.c, path + ".*"))
        if isinstance(v, APtr):
            return ("ap", self.v(v.o, path + ".o"), self.attr(v, "i", path + ".i"))
        if isinstance(v, Rec):
            r = [v.rid]
            for (a, n), c in v.f.items():
                r.append((n, self.v(c, path + "." + n)))
            if v.opt:
                for k, (c, ref) in v.opt["cap"].items():
                    r.append((k, self.v(c, path + ".cap" + str(k))))
                r.append(self.v(v.opt.get("this"), path + ".this"))
            return tuple(r)
        if isinstance(v, Arr):
            return ("arr",) + tuple(self.v(c, "%s[%d]" % (path, k)) for k, c in enumerate(v.items))
        if isinstance(v, CStr):
            return ("cstr", v.b)
        if isinstance(v, FSpecial):
            return v.n
        d = getattr(v, "__dict__", None)
        if d is None:
            return type(v).__name__
        r = [type(v).__name__]
        for k in sorted(d):
            if k in SKIP or isinstance(d[k], prog.Ty):
                continue
            x = d[k]
            if isscalar(x) or isinstance(x, T.Text):
                r.append((k, self.attr(v, k, path + "." + k)))
            else:
                r.append((k, self.v(x, path + "." + k)))
        return tuple(r)

    def attr(self, o, name, path):
        x = getattr(o, name)
        if isscalar(x) or isinstance(x, T.Text):
            n, k = self.leaf(path, x, o)
            if n is not x:
                setattr(o, name, n)
            return k
        return self.v(x, path)

    def item(self, l, k, path):
        x = l[k]
        if isscalar(x) or isinstance(x, T.Text):
            n, key = self.leaf("%s.%d" % (path, k), x, l)
            if n is not x:
                l[k] = n
            return key
        return self.v(x, "%s.%d" % (path, k))


class Ctx:
    """One path: program state and reference state side by side."""

    def __init__(self, L, script, nheads):
        self.L = L
        st = self.st = State(script)
        self.I = I = Interp(L.p, st)
        I.max_iter = 4000
        I.step_limit = 300000
        I.lib_iter = 6
        I.loophook = self.loop
        self.total = st.newis("len", 0, BIG)
        self.tape = T.Tape(st, st.var(self.total))
        self.ref = Ref(st, self.tape)
        self.nheads = nheads
        self.heads = 0
        self.snap = {}
        self.inc = {}
        self.matched = 0
        self.dead = set()
        self.t_end = min(L.t_end, time.time() + 30)
        self.ahead = False
        self.lookn = 0
        self.prevhid = None
        self.looksnap = {}
        self.q = None
        self.last = {}
        self.nprog = 0
        self.past = 0
        self.vec = None
        self.trace = []
        self.classes = []

    # ---- head handling
    def loop(self, I, node, fr, n):
        if fr.fn.get("f", "").find("/src/") < 0 and fr.fn.get("f", "").find("/include/simfil") < 0:
            return
        if time.time() > self.t_end:
            raise PathEnd("time budget used up")
        cur = self.cursor()
        if cur is None:
            return
        hid = (len(I.frames), node.get("l"), fr.fn.get("n"))
        st = self.st
        lastp = self.last.get("p")
        self.q = None
        if lastp is not None and (self.ahead or self.last["n"] >= 2):
            # a loop that looks ahead without moving its view: the characters read so far are the position
            fr_ = self.frontier(lastp)
            d = st.bounds(st.sub(fr_, cur))[0]
            moved = st.bounds(st.sub(fr_, self.last.get("fr", lastp)))[0] or 0
            if self.ahead or moved > 0 and self.prevhid == hid:
                self.last["fr"] = fr_
                self.lookn += moved > 0
                if not self.ahead and self.lookn == 1:
                    self.looksnap = {}

                    def leaf(path, v, o):
                        if isinstance(v, int):
                            self.looksnap[path] = (v, fr_)
                        return v, None
                    Walk(self.I, leaf).run()
                if d is not None and d > 0 and (self.ahead or self.lookn >= 4):
                    self.ahead = True
                    self.q = cur
                    cur = fr_
                else:
                    self.ahead = False
        else:
            self.lookn = 0
        self.prevhid = hid
        back = False
        if lastp is not None and self.q is not None:
            hi = st.bounds(st.sub(cur, lastp))[1]
            back = hi is not None and hi <= 0
        if lastp is not None and (back or st.simp(st.sub(cur, lastp)) == 0):
            # no input consumed since the last head
            c = self.last["n"] = self.last["n"] + 1
            if c > 3000:
                raise PathEnd("loop without progress")
            if not (c == 1 and self.last.get("hid") != hid and self.newtok()):
                return
        self.last = {"p": cur, "n": 0, "hid": hid}
        self.canon(cur, hid, node)

    def frontier(self, f):
        """End of the run of characters read from position f on."""
        st = self.st
        cells = {st.simp(q) for q in self.tape.cells}
        f = st.simp(f)
        while f in cells:
            f = st.simp(st.add(f, 1))
        return f

    def newtok(self):
        v = self.vec
        return v is not None and len(v.items) > 0

    def cursor(self):
        """Largest position the program's state refers to (start of a text that is the rest of the input, or an index)."""
        st = self.st
        best = [None]

        def take(p):
            if best[0] is None:
                best[0] = p
                return
            d = st.simp(st.sub(p, best[0]))
            lo, hi = st.bounds(d)
            if lo is not None and lo >= 0:
                best[0] = p
        vec = []

        def leaf(path, v, o):
            if isinstance(v, T.Text):
                for s in v.segs:
                    if s[0] == "t" and s[1] is self.tape and st.simp(st.sub(s[3], self.tape.end)) == 0:
                        take(s[2])
            return v, None
        w = Walk(self.I, leaf)
        w.run()
        best0 = best[0]
        if best0 is None:
            return None
        # index-based programs: a position variable ahead of the text view
        base = self.positions()

        def leaf2(path, v, o):
            if isscalar(v) and not isnum(v) and not isinstance(v, TF):
                v = st.simp(v)
                if isinstance(v, Poly):
                    ab = self.aspos(v)
                    if ab:
                        take(v)
            return v, None
        if self.indexed(w):
            Walk(self.I, leaf2).run()
        e = st.simp(st.sub(self.tape.end, best[0]))
        lo, hi = st.bounds(e)
        if hi is not None and hi < 0:
            return best0
        return best[0]

    def indexed(self, w):
        """The program keeps a view that starts at the beginning of the input next to index variables."""
        return False

    def idx(self, path):
        return True

    def positions(self):
        return None

    def aspos(self, v):
        """(a, b) such that v is a position: combination of begin/position/end landmarks."""
        return True

    # ---- canonical form
    def canon(self, cur, hid, node):
        st, ref = self.st, self.ref
        replay = self.heads < self.nheads
        self.lasthid, self.lastpos = hid, st.simp(cur)
        ref.feed(cur)
        ref.settle()
        self.match_tokens()
        if ref.error or ref.free:
            # the reference outcome is settled for this prefix: follow the program only a little further
            self.past += 1
            if self.past > (2 if ref.error else 0):
                raise PathEnd("beyond a settled outcome")
        if self.L.collect is not None:
            def leaf(path, v, o):
                if isinstance(v, int):
                    self.snap[path] = (v, cur)
                elif isinstance(v, T.Text):
                    for g in v.segs:
                        if g[0] == "t":
                            for q, z in ((g[2], ".a"), (g[3], ".b")):
                                q = st.simp(q)
                                if isnum(q):
                                    self.snap[path + z] = (q, cur)
                return v, None
            Walk(self.I, leaf).run()
            self.last["p"] = cur
            self.heads += 1
            if replay:
                return
            raise HeadCut("")
        self.rename(hid)
        self.heads += 1
        if replay:
            return
        key = self.key(hid)
        raise HeadCut(key)

    def newsym(self, tag, v, lo=None, hi=None, real=False):
        st = self.st
        l, h = st.bounds(v)
        if lo is not None:
            l = lo if l is None or l < lo else l
        s = st.newis(tag, l, h if hi is None else hi, real=real)
        return s

    def rename(self, hid):
        st, ref = self.st, self.ref
        B, P, E = ref.b, ref.p, self.tape.end
        Q = self.q
        if ref.mode == "S":
            B = P
            if Q is not None:
                B, Q = Q, None
        if Q is not None and (st.simp(st.sub(Q, B)) == 0 or st.simp(st.sub(Q, P)) == 0):
            Q = None
        D = st.simp(st.sub(P, B))
        R = st.simp(st.sub(E, P))
        exact = False
        if ref.mode in ("W", "WESC") and ref.error is None:
            tl = T.length(st, ref.text)
            exact = isnum(tl) and tl <= KNOWN_WORD and isnum(D) and D <= (KNOWN_WORD if D == tl else 4)
        elif ref.mode in ("DOT", "DOT2", "STAR", "LT", "GT", "EQ", "BANG", "HEX0", "BIN0", "ZERO", "EXP0"):
            exact = isnum(D) and D <= 3
        lm = []  # (name, old value, new value)
        b2 = st.newis("B", 0, BIG)
        if isnum(B):
            # keep the start-of-input state distinct only when it is the very start
            pass
        nb = st.var(b2)
        opaque = None
        if ref.mode in ("STR", "SESC") or (ref.mode in ("W", "WESC") and not exact):
            t0 = T.norm(st, ref.text.segs)
            n0 = T.length(st, t0)
            plain = len(t0.segs) == 1 and t0.segs[0][0] == "t" and \
                (ref.mode in ("STR", "SESC") or st.simp(st.sub(t0.segs[0][2], B)) == 0)
            if not (isnum(n0) and n0 == 0) and not plain:
                st.n += 1
                opaque = (t0, n0, T.XSeg(st.n, st.sym("TL", 1, BIG), "text", {}))
        if exact or (isnum(D) and (D == 0 or D <= 4 and ref.mode in ("STR", "SESC") and not ref.text.segs)):
            nd = D
        elif opaque:
            # at least one input character per character of the text
            nd = st.add(opaque[2].len, st.var(st.newis("D", 0, BIG)))
        else:
            dl = st.bounds(D)[0] or 1
            nd = st.var(st.newis("D", KNOWN_WORD + 1 if dl > KNOWN_WORD and ref.mode in ("W", "WESC") else 1, BIG))
        lo, hi = st.bounds(R)
        lo = max(0, lo or 0)
        if isnum(R):
            nr = R
        else:
            nr = st.var(st.newis("R", min(lo, 4), BIG))
        np_ = st.add(nb, nd)
        pos = [("b", B, nb), ("p", P, np_)]
        nq = None
        if Q is not None:
            dq = st.simp(st.sub(P, Q))
            if isnum(dq):
                nq = st.sub(np_, dq)
            else:
                nq = st.add(nb, st.var(st.newis("Q", 0, BIG)))
                np_ = st.add(nq, st.var(st.newis("D", 1, BIG)))
                pos = [("b", B, nb), ("p", P, np_), ("q", Q, nq)]
        ne = st.add(np_, nr)
        pos.append(("e", E, ne))
        nums = []
        for name, v in ref.numbers():
            v = st.simp(v)
            if ref.mode in ("ZERO", "HEX0", "BIN0") and isnum(v):
                continue
            if name in ("exp",) and isnum(v) and not ref.expd:
                continue
            if name == "k" and isnum(v) and v == 0:
                continue
            if name == "frac" and isnum(ref.k) and ref.k == 0:
                # no digit yet: equal to the integer part
                continue
            l, h = st.bounds(v)
            if name == "num":
                iv = (0, MAXI)
                if h is not None and h == 0:
                    iv = (0, 0)
                    continue
                s = st.newis("N", 0, MAXI)
            elif name == "frac":
                s = st.newis("F", 0, None, real=True)
            elif name == "k":
                s = st.newis("K", 1, BIG)   # digits after the point: bounded by the input length
            else:
                s = st.newis("E", 0, None)
            nums.append((name, v, st.var(s)))
        # combined landmarks of a fraction: mantissa and scale
        ext = []
        d = dict((n, (o, w)) for n, o, w in nums)
        if "k" in d:
            ko, kn = d["k"]
            ext.append(("scale", st.pw(10, ko), st.pw(10, kn)))
            ext.append(("iscale", st.pw(10, st.neg(ko)), st.pw(10, st.neg(kn))))
            if "frac" in d:
                fo, fn = d["frac"]
                ext.append(("mant", st.mul(fo, st.pw(10, ko)), st.mul(fn, st.pw(10, kn))))
        if "exp" in d and not isnum(d["exp"][0]):
            eo, en = d["exp"]
            ext.append(("pexp", st.pw(10, eo), st.pw(10, en)))
        nums = nums + ext
        # texts
        texts = []
        if opaque:
            texts.append((opaque[0], T.Text([("x", opaque[2])])))
            nums.append(("tlen", opaque[1], opaque[2].len))
        exactnow = exact
        learned = self.L.learned.get(hid, {})
        snap = self.snap
        inc = self.inc
        self.lossy = False
        old = set()
        for _, v, _2 in pos + nums:
            for s in st.syms(v):
                old.add(s)

        newsyms = set()
        for _, _2, v in pos + nums:
            for s in st.syms(v):
                newsyms.add(s)

        def sub_pos(v):
            best = None
            for k, (a, b, e) in enumerate(COMBOS):
                t = st.sub(st.sub(st.sub(v, st.mul(a, P)), st.mul(b, B)), st.mul(e, E))
                t = st.simp(t)
                if isnum(t):
                    rank = (k > 2, t != 0, k if t == 0 or k > 2 else abs(t))
                    if best is None or rank < best[0]:
                        best = (rank, st.add(st.add(st.add(st.mul(a, np_), st.mul(b, nb)), st.mul(e, ne)), t))
                        if t == 0:
                            break
            if nq is not None:
                for a, b, e, q in ((0, 0, 0, 1), (1, 0, 0, -1), (0, 0, 1, -1), (0, -1, 0, 1)):
                    t = st.simp(st.sub(st.sub(st.sub(st.sub(v, st.mul(a, P)), st.mul(b, B)), st.mul(e, E)), st.mul(q, Q)))
                    if isnum(t) and (best is None or best[0][0] or abs(t) < best[0][2]):
                        return st.add(st.add(st.add(st.add(st.mul(a, np_), st.mul(b, nb)), st.mul(e, ne)), st.mul(q, nq)), t)
            if best:
                return best[1]
            return None

        posyms = set(st.syms(P)) | set(st.syms(B)) | set(st.syms(E)) | (set(st.syms(Q)) if Q is not None else set())

        def ren(v, path):
            v = st.simp(v)
            if isnum(v):
                q = snap.get(path)
                if self.q is not None and path in self.looksnap:
                    v0, f0 = self.looksnap[path]
                    df = st.simp(st.sub(P, f0))
                    if isnum(df) and df > 0 and v - v0 == df:
                        # a count of characters looked ahead
                        return st.simp(st.add(st.sub(np_, nq if nq is not None else nb), st.sub(v, st.sub(P, self.q))))
                snap[path] = (v, P, B, {n: o for n, o, w in nums})
                if path in learned and isnum(P) and v == P + learned[path]:
                    return st.add(np_, learned[path])
                if q is not None and q[0] != v and isinstance(v, (int, Fraction)):
                    dv = v - q[0]
                    if isnum(P) and isnum(q[1]) and P - q[1] == dv:
                        return st.add(np_, v - P)
                    if isnum(B) and isnum(q[2]) and B - q[2] == dv:
                        return st.add(nb, v - B)
                    for n, o, w in nums:
                        qo = q[3].get(n, 0)
                        if isnum(o) and isnum(qo) and qo != o:
                            r = Fraction(dv) / Fraction(o - qo)
                            return st.add(st.mul(red(r), w), v - r * o)
                if q is None and isinstance(v, (int, Fraction)):
                    for n, o, w in nums:
                        if n in ("num", "frac", "exp") and isnum(o) and o != 0 and o == v:
                            return w
                if q is not None and q[0] != v and isinstance(v, (int, Fraction)):
                    k = (hid, path)
                    inc[k] = inc.get(k, 0) + 1 if v > q[0] else 0
                    if inc[k] > 3:
                        return self.forget(v, path)
                return v
            for s in st.syms(v):
                if s in self.dead:
                    st.taint("value over a forgotten quantity")
            if isinstance(v, (Poly, TF)):
                for n, o, w in nums:
                    r = self.affine(v, o)
                    if r is not None:
                        return st.add(st.mul(r[0], w), r[1])
                sy = set(st.syms(v))
                if sy & posyms:
                    r = sub_pos(v)
                    if r is not None:
                        return r
                    return self.forget(v, path)
                if sy & old or (not exact and any(isinstance(s, CS) and isinstance(s.tag, T.Tape) and self.isold(s) for s in sy)):
                    if isinstance(v, TF) and self.small(v):
                        return v
                    return self.forget(v, path)
                return v
            return v

        cache = {}

        def rentext(t, path, rest=False):
            t = T.norm(st, t.segs)
            for o, w in (() if rest else texts):
                if T.same(st, t, o):
                    return w
                # a text that extends the landmark
                if o.segs:
                    r = T.strip(st, t, o)
                    if r is not None:
                        return T.Text(w.segs + rentext(r, path, True).segs)
            out = []
            for s in t.segs:
                if s[0] == "t":
                    da = st.simp(st.sub(s[2], B))
                    if ref.mode in ("STR", "SESC", "W", "WESC") and isnum(da) and 0 <= da <= 5 and \
                            st.simp(st.sub(s[2], P)) != 0 and st.simp(st.sub(s[3], E)) != 0:
                        x = st.add(nb, da)     # relative to the start of the token
                    else:
                        x = ren(s[2], path + ".a") if isnum(st.simp(s[2])) else sub_pos(s[2])
                    y = ren(s[3], path + ".b") if isnum(st.simp(s[3])) else sub_pos(s[3])
                    if x is None or y is None:
                        out.append(("x", T.XSeg(self.nid(), st.sym("XL", 0, BIG, wid=True), "lost")))
                        st.taint("text over a forgotten position")
                        continue
                    out.append(("t", s[1], x, y))
                elif s[0] == "x":
                    st.simp(s[1].len)
                    out.append(s)
                else:
                    out.append(s)
            return T.Text(out)

        if ref.mode in ("STR", "SESC", "W", "WESC") and not opaque:
            t0 = T.norm(st, ref.text.segs)
            if len(t0.segs) == 1 and t0.segs[0][0] == "t":
                w0 = rentext(t0, "ref")
                if all(g[0] == "t" for g in w0.segs):
                    texts.append((t0, w0))
        def leaf(path, v, o):
            if isinstance(v, T.Text):
                return rentext(v, path), None
            return ren(v, path), None
        Walk(self.I, leaf).run()
        # reference state
        if ref.mode == "S" and isnum(D) and D != 0:
            pass
        ref.b, ref.p = (nb if ref.mode != "S" else np_), np_
        for tk in ref.out:
            self.rentok(tk, ren, rentext)
        dn = dict((n, w) for n, o, w in nums)
        if "num" in dn:
            ref.num = dn["num"]
        elif not isnum(ref.num):
            ref.num = st.simp(ref.num)
        if ref.frac is not None:
            if "frac" in dn:
                ref.frac = dn["frac"]
            elif isnum(ref.k) and ref.k == 0:
                ref.frac = ref.num
        if "k" in dn:
            ref.k = dn["k"]
        if "exp" in dn:
            ref.exp = dn["exp"]
        if opaque:
            ref.text = texts[0][1]
        else:
            ref.text = rentext(ref.text, "ref")
        # the tape
        cells = {}
        keepfrom = B if exact else P
        for q, c in self.tape.cells.items():
            d = st.simp(st.sub(q, keepfrom))
            lo, hi = st.bounds(d)
            if lo is not None and lo >= 0:
                n = sub_pos(st.simp(q))
                if n is None and isnum(q):
                    n = st.add(nb, q - B) if isnum(B) else None
                if n is None:
                    n = st.add(nb if exact else np_, d)
                c.pos = n
                cells[st.simp(n)] = c
            else:
                c.tag = None
                c.pos = None
        self.tape.cells = cells
        self.tape.end = ne
        self.tape.low = nb if exact else np_
        if nq is not None:
            self.q = nq
        self.dead |= {s for s in old if isinstance(s, IS)} - newsyms
        self.last["p"] = np_
        # numeric facts over forgotten quantities
        for k in list(st.facts):
            if set(st.syms(k)) & self.dead:
                del st.facts[k]

    def nid(self):
        self.st.n += 1
        return self.st.n

    def isold(self, s):
        st = self.st
        if s.pos is None:
            return True
        lo, hi = st.bounds(st.sub(s.pos, self.ref.p))
        return hi is not None and hi < 0

    def small(self, v):
        """A character-determined value is kept when it is one of the remembered characters."""
        return True

    def affine(self, v, o):
        """(a, c) with v == a*o + c, or None."""
        st = self.st
        for k in (1, -1):
            c = st.simp(st.sub(v, st.mul(k, o)))
            if isnum(c):
                return k, c
        if isnum(o):
            return None
        p, q = st.poly(v), st.poly(o)
        ms = [m for m in q.d if m != ()]
        m = sorted(ms)[0]
        if m not in p.d:
            return None
        a = Fraction(p.d[m]) / Fraction(q.d[m])
        c = st.simp(st.sub(v, st.mul(red(a), o)))
        return (red(a), c) if isnum(c) else None

    def forget(self, v, path):
        st = self.st
        l, h = st.bounds(v)
        f = not (l is not None and isinstance(l, int))
        return st.sym("w", (0 if l is not None and l >= 0 else None), None, wid=True)

    def rentok(self, tk, ren, rentext):
        tk.b = ren(tk.b, "ref.tok.b")
        tk.e = ren(tk.e, "ref.tok.e")
        if tk.text is not None:
            tk.text = rentext(tk.text, "ref.tok.text")

    def key(self, hid):
        """Structural key of the canonical state, symbols numbered in order of appearance."""
        st = self.st
        num = {}
        out = []

        def nm(s):
            if s not in num:
                num[s] = len(num)
                if isinstance(s, CS):
                    out.append(("dom", num[s], "%x" % st.dom[s]))
                else:
                    out.append(("iv", num[s], st.iv.get(s), getattr(s, "wid", False)))
            return num[s]

        def kv(v):
            v = st.simp(v)
            if isnum(v):
                return v
            if isinstance(v, TF):
                return ("T", nm(v.s), st.restrict(v))
            r = []
            for m, c in v.d.items():
                mm = []
                for a, e in m:
                    x = st.atoms[a]
                    if x.kind == "t":
                        mm.append(("T", nm(x.s), st.restrict(x), e))
                    elif x.kind == "p":
                        mm.append(("P", x.base, kv(x.e), e))
                    else:
                        mm.append((nm(x), e))
                r.append((tuple(sorted(mm, key=repr)), c))
            return tuple(sorted(r, key=repr))

        def kt(t):
            r = []
            for s in T.norm(st, t.segs).segs:
                if s[0] == "c":
                    r.append(("c", kv(s[1])))
                elif s[0] == "t":
                    r.append(("t", kv(s[2]), kv(s[3])))
                elif s[0] == "x":
                    r.append(("x", nmx(s[1]), kv(s[1].len)))
                else:
                    r.append(("m", s[1], kt(T.Text([s[2]]))))
            return tuple(r)

        def nmx(x):
            if x not in num:
                num[x] = len(num)
            return num[x]

        def leaf(path, v, o):
            return v, (kt(v) if isinstance(v, T.Text) else kv(v))
        ref = self.ref
        rk = (ref.mode, kv(ref.b), kv(ref.p), kv(self.tape.end), ref.pre, ref.quote, ref.kind, ref.over, ref.neg, ref.expd, ref.base,
              ref.error is not None, ref.free is not None, kv(ref.num), None if ref.frac is None else kv(ref.frac), kv(ref.k),
              None if ref.exp is None else kv(ref.exp), kt(ref.text),
              tuple((t.cls, t.type, kv(t.b), kv(t.e), None if t.text is None else kt(t.text), None if t.num is None else kv(t.num)) for t in ref.out))
        sk = Walk(self.I, leaf).run()
        cells = tuple(sorted(((kv(q), "%x" % st.dom[c]) for q, c in self.tape.cells.items()), key=repr))
        full = (hid, rk, self.ahead, sk, cells, tuple(out), tuple(sorted(st.taints)), "first" if self.heads == 1 else "")
        self.lastfull = full
        return hashlib.md5(repr(full).encode()).hexdigest()

    # ---- tokens
    def tokvec(self):
        """The container the program collects tokens in."""
        if self.vec is not None and not self.vec.dead:
            return self.vec
        found = []
        seen = set()

        def go(v, d=0):
            if id(v) in seen or d > 12:
                return
            seen.add(id(v))
            if isinstance(v, lib.VecObj) and not isinstance(v, lib.InitList):
                et = v.et
                if et is not None and et.rec and et.rec.endswith(" " + TOKEN):
                    found.append(v)
                    return
            if isinstance(v, Cell):
                go(v.v, d + 1)
            elif isinstance(v, Ptr):
                go(v.c, d + 1)
            elif isinstance(v, Rec):
                for c in v.f.values():
                    go(c, d + 1)
        for fr in self.I.frames:
            for c in fr.vars.values():
                if isinstance(c, Cell) and not c.dead:
                    go(c)
            go(fr.this)
        if found:
            self.vec = found[0]
        return self.vec if found else None

    def match_tokens(self):
        v = self.tokvec()
        if v is None:
            return
        ref = self.ref
        while v.items and ref.out:
            self.compare(v.items[0].v, ref.out[0])
            ref.out.pop(0)
            v.items.pop(0)
            v.dropped = True
            self.matched += 1

    def code_type(self, tok):
        ev = self.L.types
        t = self.st.simp(tok.get("type").v)
        if not isnum(t):
            raise Unsupported("abstract token type")
        return ev.get(t, str(t))

    def viol(self, prop, msg):
        if self.ref.error or self.ref.free:
            return
        if self.st.taints:
            raise PathEnd("difference on an imprecise path: %s [%s]" % (msg, self.st.taints[0]))
        raise Viol(prop, msg, self.I.here())

    def compare(self, tok, r):
        st = self.st
        if not isinstance(tok, Rec):
            raise Unsupported("token object")
        want = r.type
        if r.cls == "w":
            want = self.ref.keyword(r.text) or "WORD"
        got = self.code_type(tok)
        b, e = tok.get("begin").v, tok.get("end").v
        prop = PROP[r.cls]
        if got != want:
            if got in ("INT", "FLOAT") and r.cls != "n":
                prop = "L05" if r.cls in "ow" else prop
            elif r.cls == "o" and got == "WORD":
                prop = "L03"
            elif r.cls == "w" and got in ("STRING", "REGEXP"):
                prop = "L04"
            self.viol(prop, "token kind %s where the language has %s (%s token)" % (got, want, CLS[r.cls]))
        val = tok.get("value").v
        if want in ("INT", "FLOAT"):
            if not isinstance(val, lib.VarObj):
                raise Unsupported("token value")
            x = val.c.v
            t = val.types[val.idx]
            if want == "INT" and not t.isint or want == "FLOAT" and not t.flt:
                self.viol("L05", "value of a %s token has another type" % want)
            self.eqnum(x, r.num, "L05", "value of a number literal differs from the number written")
        elif want in ("STRING", "REGEXP", "WORD"):
            x = val.c.v if isinstance(val, lib.VarObj) else None
            if not isinstance(x, lib.StrObj):
                self.viol(prop, "%s token carries no text" % want)
            a, c = T.norm(st, x.t.segs), T.norm(st, r.text.segs)
            if not T.same(st, a, c):
                if self.textneq(a, c):
                    self.viol(prop, "text of a %s token differs from the characters written" % want)
        for what, x, y in (("begin", b, r.b), ("end", e, r.e)):
            d = st.simp(st.sub(x, y))
            if isnum(d) and d == 0:
                continue
            for s in st.syms(d):
                if s in self.dead or getattr(s, "wid", False):
                    st.taint("token offset over a forgotten quantity")
            self.viol("L01", "%s offset of a %s token differs from its position in the input" % (what, CLS[r.cls]))
        self.classes.append((r.cls, want))

    def eqnum(self, x, y, prop, msg):
        st = self.st
        if isinstance(x, FSpecial):
            self.viol(prop, msg)
        d = st.simp(st.sub(x, y))
        if isnum(d) and d == 0:
            return
        for s in st.syms(d):
            if s in self.dead or getattr(s, "wid", False):
                st.taint("number over a forgotten quantity")
        if isinstance(d, Poly):
            for m in d.d:
                for a, _ in m:
                    if st.atoms[a].kind == "o":
                        st.taint("opaque arithmetic")
        if isnum(d) or not self.maybezero(d):
            self.viol(prop, msg)
        if not st.cmp("==", d, 0, "value equality"):
            self.viol(prop, msg)

    def maybezero(self, d):
        return True

    def textneq(self, a, b):
        """Can the two texts differ? (True after refining to a difference)"""
        st = self.st
        for s in a.segs + b.segs:
            if s[0] == "x" and s[1].tag == "lost":
                st.taint("text over a forgotten quantity")
        n, m = T.length(st, a), T.length(st, b)
        d = st.simp(st.sub(n, m))
        if isnum(d) and d != 0:
            return True
        ca, cb = T.chars(st, a), T.chars(st, b)
        if ca is not None and cb is not None and len(ca) == len(cb):
            for x, y in zip(ca, cb):
                if not st.cmp("==", x, y, "text equality"):
                    return True
            return False
        xa = {g[1] for g in a.segs if g[0] == "x"}
        xb = {g[1] for g in b.segs if g[0] == "x"}
        if xa != xb:
            st.taint("relation between widened texts unknown")
            return True
        # strip common prefix / suffix
        sa, sb = list(a.segs), list(b.segs)
        while sa and sb and T.same(st, T.Text(sa[:1]), T.Text(sb[:1])):
            sa.pop(0)
            sb.pop(0)
        while sa and sb and T.same(st, T.Text(sa[-1:]), T.Text(sb[-1:])):
            sa.pop()
            sb.pop()
        if not sa and not sb:
            return False
        ca, cb = T.chars(st, T.Text(sa)), T.chars(st, T.Text(sb))
        if ca is not None and cb is not None:
            if len(ca) != len(cb):
                return True
            for x, y in zip(ca, cb):
                if not st.cmp("==", x, y, "text equality"):
                    return True
            return False
        if not st.cmp("==", st.simp(st.sub(n, m)), 0, "text length"):
            return True
        st.taint("texts of different form")
        return True

    # ---- ends
    def returned(self, r):
        st, ref = self.st, self.ref
        toks = r
        if isinstance(toks, Cell):
            toks = toks.v
        if not isinstance(toks, lib.VecObj):
            raise Unsupported("result")
        self.vec = toks
        # the reference reads on; a pending token list longer than the program's is a loss
        n = 0
        done = False
        while not done and ref.error is None and ref.free is None:
            if not st.cmp("<", ref.p, self.tape.end, "ref end"):
                ref.eof()
                done = True
                break
            ref.step(self.tape.cell(ref.p))
            n += 1
            if n > 4:
                raise PathEnd("unread input after the program returned")
        if ref.free:
            return "free"
        if ref.error:
            if st.taints:
                return "imprecise"
            m = self.ref.mode
            p = {"STR": "L04", "SESC": "L04", "WESC": "L03", "HEX0": "L05", "BIN0": "L05", "HEX": "L05", "BIN": "L05", "INT": "L05",
                 "FRAC": "L05", "EXP": "L05", "EXP0": "L05", "BANG": "L02"}.get(m, "L01")
            raise Viol(p, "input that must be rejected is accepted (%s)" % ref.error, self.I.here())
        self.match_tokens()
        if ref.out:
            self.viol("L01", "input text without a token: a %s token is missing" % CLS[ref.out[0].cls])
        if not toks.items:
            self.viol("L01", "token list does not end with an end-of-file token")
        if self.code_type(toks.items[0].v) != "NIL":
            self.viol("L01", "token %s without a spelling in the input" % self.code_type(toks.items[0].v))
        if len(toks.items) > 1:
            self.viol("L01", "tokens after the end-of-file token")
        return "ok"

    def thrown(self, e):
        st, ref = self.st, self.ref
        # everything the program looked at
        n = 0
        while ref.error is None and ref.free is None:
            d = st.simp(st.sub(self.tape.end, ref.p))
            lo, hi = st.bounds(d)
            if hi is not None and hi <= 0:
                ref.eof()
                break
            seen = any(st.simp(q) == st.simp(ref.p) for q in self.tape.cells)
            later = False
            for q in self.tape.cells:
                l2, h2 = st.bounds(st.sub(q, ref.p))
                if l2 is not None and l2 > 0:
                    later = True
            if not seen and not later:
                break
            if lo is None or lo <= 0:
                if not st.cmp("<", ref.p, self.tape.end, "ref end"):
                    ref.eof()
                    break
            ref.step(self.tape.cell(ref.p))
            n += 1
            if n > 64:
                raise Unsupported("reference lexer runs ahead")
        if ref.error or ref.free:
            return "rejected"
        if ref.over:
            return "rejected"
        if st.taints:
            return "imprecise"
        v = self.tokvec()
        m = ref.mode
        p = {"STR": "L04", "SESC": "L04", "WESC": "L03", "W": "L03", "HEX0": "L05", "BIN0": "L05", "HEX": "L05", "BIN": "L05", "INT": "L05",
             "ZERO": "L05", "FRAC": "L05", "EXP": "L05", "EXP0": "L05"}.get(m)
        if p is None:
            c = ref.out[-1].cls if ref.out else None
            p = PROP.get(c, "L02")
        raise Viol(p, "valid input is rejected with an error", e.loc)

    def ubprop(self, e):
        m = self.ref.mode
        if "overflow" in e.msg or "conversion" in e.msg or "shift" in e.msg:
            return "L05"
        if "negative character" in e.msg:
            return {"STR": "L04", "SESC": "L04", "W": "L03", "WESC": "L03"}.get(m, "L01")
        return "L01"


class Lexer:
    def __init__(self, p):
        self.p = p
        fs = [f for f in p.byname.get("simfil::tokenize", []) if "body" in f]
        if len(fs) != 1:
            raise AnalysisBroken("simfil::tokenize not found")
        self.f = fs[0]
        self.learned = {}
        self.collect = None
        self.t_end = time.time() + 3600
        self.types = None
        for t in p.tys.values():
            if t.k == "e" and t.n.endswith("simfil::Token::Type") and t.ev:
                self.types = {v: k for k, v in t.ev.items()}
        if not self.types or "NIL" not in self.types.values():
            raise AnalysisBroken("enumeration simfil::Token::Type not found")

    def run(self, script, nheads):
        c = Ctx(self, script, nheads)
        st, I = c.st, c.I
        view = lib.SvObj(T.Text([("t", c.tape, 0, c.tape.end)]))
        res = {"kind": None, "why": None, "viol": None}
        try:
            try:
                r = I.invoke(self.f, None, [view], None)
                res["kind"] = c.returned(r)
            except CxxThrow as e:
                res["kind"] = c.thrown(e)
        except HeadCut as e:
            res["kind"] = "head"
            res["key"] = e.key
            res["heads"] = c.heads
            if self.collect is not None:
                res["hid"], res["pos"], res["snap"] = c.lasthid, c.lastpos, dict(c.snap)
        except Viol as e:
            res["kind"] = "viol"
            res["viol"] = (e.prop, e.msg, e.loc)
        except UBEvent as e:
            if c.ref.error or c.ref.free or st.taints:
                # still a violation, but only when the path is exact
                res["kind"] = "ub-imprecise" if st.taints else "viol"
            else:
                res["kind"] = "viol"
            if res["kind"] == "viol":
                res["viol"] = (c.ubprop(e), "undefined behaviour: " + e.msg, e.loc)
            res["why"] = e.msg
        except PathEnd as e:
            res["kind"] = "cut"
            res["why"] = e.why
        except Unsupported as e:
            res["kind"] = "unsupported"
            res["why"] = "%s" % e
        if res["viol"]:
            res["example"] = example(c)
        res["trail"] = [(n, k) for n, k, l in st.trail]
        res["covered"] = I.covered
        res["steps"] = I.steps
        res["classes"] = c.classes
        return res

    def learn(self, budget=400):
        """Which constants of the first loop head are input positions: those that move with the position."""
        first = {}
        got = []

        class Stop(Exception):
            pass
        self.collect = {}
        r = self.run([], 0)
        if r["kind"] != "head":
            return
        hid = r["hid"]
        base = r["snap"]
        todo = [([k for _, k in r["trail"]], 1)]
        n = 0
        samples = []
        while todo and time.time() < self.t_end and len({s[0] for s in samples}) < (3 if n < budget else 2):
            sc, nh = todo.pop(0)
            for x in self.explore((sc, nh)):
                n += 1
                if x["kind"] == "head":
                    if x["hid"] == hid and isnum(x["pos"]) and x["pos"] > 0:
                        samples.append((x["pos"], x["snap"]))
                    elif nh < 4:
                        todo.append(([k for _, k in x["trail"]], x["heads"]))
        self.collect = None
        if len({s[0] for s in samples}) < 2:
            return
        p0 = r["pos"]
        out = {}
        for path, q in base.items():
            v0 = q[0]
            if not isinstance(v0, int) or isinstance(v0, bool) or not isnum(p0):
                continue
            have = [(p, s[path][0]) for p, s in samples if path in s and s[path][1] == p]
            good = [p for p, v in have if isinstance(v, int) and v - v0 == p - p0]
            # an exhausted view has no position and may be off
            if len(set(good)) > 1 and len(good) * 10 >= len(have) * 9:
                out[path] = v0 - p0
        self.learned = {hid: out}

    def explore(self, job):
        """All paths that extend a script up to their next loop head."""
        script, nheads = job
        base = len(script)
        out = []
        s = list(script)
        while True:
            r = self.run(s, nheads)
            out.append(r)
            t = r["trail"]
            while len(t) > base and t[-1][1] + 1 >= t[-1][0]:
                t = t[:-1]
            if len(t) <= base:
                return out
            s = [k for _, k in t[:-1]] + [t[-1][1] + 1]
            if time.time() > self.t_end:
                out.append({"kind": "cut", "why": "time budget used up", "viol": None, "trail": [], "covered": set(), "steps": 0, "classes": []})
                return out
            if len(out) > 3000:
                out.append({"kind": "cut", "why": "too many paths in one segment", "viol": None, "trail": [], "covered": set(), "steps": 0, "classes": []})
                return out


class AnalysisBroken(Exception):
    pass


def example(c):
    """Readable rendering of the characters the path is about (last token)."""
    st = c.st
    r = []
    try:
        cs = sorted(c.tape.cells.items(), key=lambda kv: (st.bounds(st.sub(kv[0], c.tape.low))[0] or 0))
        for q, x in cs:
            b = bits(st.dom[x])
            pick = next((i for i in b if chr(i).isalnum()), None)
            if pick is None:
                pick = next((i for i in b if 32 <= i < 127), b[0])
            r.append(chr(pick) if 32 <= pick < 127 else "\\x%02x" % pick)
    except Exception:
        return ""
    return "".join(r)


_L = None


def _work(job):
    res = _L.explore(job)
    heads = []
    done = []
    cov = set()
    steps = 0
    for r in res:
        cov |= r["covered"]
        steps += r["steps"]
        if r["kind"] == "head":
            heads.append((r["key"], [k for _, k in r["trail"]], r["heads"]))
        else:
            done.append((r["kind"], r["why"], r["viol"], r.get("example"), [k for _, k in r["trail"]]))
    cl = set()
    for r in res:
        cl |= set(r["classes"])
    return heads, done, cov, steps, len(res), cl


def analyse(p, deadline=600, workers=None, log=None, stop=None):
    global _L
    t0 = time.time()
    _L = Lexer(p)
    _L.t_end = t0 + min(60, deadline / 4)
    _L.learn()
    _L.t_end = t0 + deadline
    visited = set()
    front = [([], 0)]
    tot = {"paths": 0, "steps": 0, "states": 0, "kinds": {}, "cut": {}, "viols": {}, "cov": set(), "classes": set(), "rounds": 0, "complete": True}
    workers = workers or min(8, os.cpu_count() or 1)
    ctx = mp.get_context("fork")
    with ctx.Pool(workers) as pool:
        while front:
            tot["rounds"] += 1
            nxt = []
            for heads, done, cov, steps, n, cl in pool.imap_unordered(_work, front, chunksize=1):
                tot["paths"] += n
                tot["steps"] += steps
                tot["cov"] |= cov
                tot["classes"] |= cl
                for k, why, v, ex, tr in done:
                    tot["kinds"][k] = tot["kinds"].get(k, 0) + 1
                    if k in ("cut", "unsupported", "ub-imprecise", "imprecise"):
                        tot["cut"][(k, why)] = tot["cut"].get((k, why), 0) + 1
                    if v:
                        tot["viols"].setdefault(v, (ex, tr))
                for key, sc, nh in heads:
                    if key not in visited:
                        visited.add(key)
                        nxt.append((sc, nh))
            tot["states"] = len(visited)
            if log:
                log("round %d: %d states, %d new, %d paths, %.1fs" % (tot["rounds"], len(visited), len(nxt), tot["paths"], time.time() - t0))
            front = sorted(nxt)
            if stop and front and any(k[0] == stop for k in tot["viols"]):
                tot["complete"] = False
                break
            if front and (time.time() - t0 > deadline or tot["rounds"] > 60):
                tot["complete"] = False
                break
    tot["wall"] = time.time() - t0
    return tot
