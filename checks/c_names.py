"""S04: the comparison and hash objects that the dictionary and the function/constant tables are declared with."""
import os
import time
from engine import prog, lib, text as T
from engine.dom import *
from engine.interp import *
from .core import Result, AnalysisBroken
from .explore import *

SOURCES = ("src/model/string-pool.cpp", "src/environment.cpp", "src/exception-handler.cpp")


def low(x):
    return x + 32 if 65 <= x <= 90 else x


def fold(s):
    return tuple(low(x) for x in s)


def tables(p):
    """(owner, member, type) of every associative container keyed by strings that names a comparison or hash of the library."""
    out = []
    for rid, r in sorted(p.recs.items()):
        if not r.get("repo"):
            continue
        for f in r.get("fields", ()):
            t = f.get("t")
            if t is None or t.k != "o" or not t.a:
                continue
            n = t.n
            if n not in ("std::unordered_map", "std::map", "std::unordered_set", "std::set"):
                continue
            kt = t.a[0]
            if kt is None or getattr(kt, "n", None) not in ("std::basic_string_view", "std::basic_string"):
                continue
            cmps = t.a[{"std::unordered_map": 2, "std::unordered_set": 1, "std::map": 2, "std::set": 1}[n]:]
            named = any(getattr(x, "k", None) == "o" and p.recs.get(x.rec, {}).get("repo") for x in cmps if x is not None)
            o = r.get("n", rid)
            # tables without a comparison of their own are exact on purpose (e.g. traces), except the ones that hold names
            if named or (o, f["n"]) in (("simfil::Environment", "functions"), ("simfil::Environment", "constants"), ("simfil::StringPool", "idForString_")):
                out.append((o, f["n"], t))
    return out


class Cmp:
    """The equality, order and hash of one container type."""

    def __init__(self, p, I, t):
        self.p, self.I, self.t = p, I, t
        self.ordered = t.n in ("std::map", "std::set")
        isset = t.n.endswith("set")
        a = list(t.a)
        if isset:
            a.insert(1, None)
        self.cmpty = a[2 if self.ordered else 3] if len(a) > (2 if self.ordered else 3) else None
        self.hashty = None if self.ordered or len(a) < 3 else a[2]

    def arg(self, t):
        s = lib.StrObj(t)
        return Cell(lib.SvObj(t, s))

    def callop(self, ty, args):
        f = Rec(ty.rec)
        r = self.I.call_value(f, args, None)
        return r.v if isinstance(r, Cell) else r

    def repo(self, ty):
        return ty is not None and ty.k == "o" and self.p.recs.get(ty.rec, {}).get("repo")

    def rel(self, a, b):
        """unordered: equal?  ordered: a < b?"""
        if not self.repo(self.cmpty):
            if self.ordered:
                return self.I.st.cmp("<", T.cmp3(self.I.st, a, b), 0, "less")
            return T.eq(self.I.st, a, b, "equal")
        return self.I.truth(self.callop(self.cmpty, [self.arg(a), self.arg(b)]))

    def hash(self, a):
        if not self.repo(self.hashty):
            return ("std", a)
        return self.callop(self.hashty, [self.arg(a)])

    def where(self, what):
        ty = self.hashty if what == "hash" else self.cmpty
        if ty is None or not self.repo(ty):
            return "%s" % (self.t.n,)
        r = self.p.recs[ty.rec]
        fs = [f for f in self.p.funcs.values() if f.get("cls") == ty.rec and f["n"].endswith("operator()")]
        fn = fs[0] if fs else None
        return "%s: %s" % (fn["f"].replace(prog.REPO.rstrip("/") + "/", "") if fn else "?", fn["n"] if fn else r.get("n"))


def lit(s):
    return T.Text([("c", x) for x in s])


CTX = [((), (), (), ()), ((107,), (75,), (), ()), ((), (), (90, 57), (122, 57)), ((228, 98), (228, 66), (113,), (113,))]


def body_pairs(p, t, ctx, ds):
    def body(I, st):
        C = Cmp(p, I, t)
        d = ds[st.choose(len(ds), "d")]
        c = st.newcs()
        ch = TF(c, tuple(range(256)))
        pl, pr, sl, sr = ctx
        l = T.Text([("c", x) for x in pl] + [("c", ch)] + [("c", x) for x in sl])
        r = lit(pr + (d,) + sr)
        x = C.rel(l, r)
        y = C.rel(r, l)
        cs = list(bits(st.dom[c]))
        for k in cs:
            same = low(k) == low(d)
            ex = {"character": k, "other": d, "prefix": list(pl), "suffix": list(sl)}
            if C.ordered:
                if x and y:
                    raise Fail(C.where("cmp"), "two names are each less than the other", ex)
                if (not x and not y) != same:
                    raise Fail(C.where("cmp"), "names that differ only in ASCII letter case are not equivalent" if same
                               else "different names are equivalent", ex)
            else:
                if x != y:
                    raise Fail(C.where("cmp"), "equality is not symmetric", ex)
                if x != same:
                    raise Fail(C.where("cmp"), "names that differ only in ASCII letter case are not equal" if same
                               else "different names are equal", ex)
        return {"pairs": len(cs)}
    return body


def words():
    al = (97, 65, 122, 95, 48, 64, 91, 128, 255, 224)
    out = [()] + [(x,) for x in al] + [(x, y) for x in al[:6] for y in al[:8]]
    base = [97 + i % 26 for i in range(70)]
    for n in (3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65):
        b = base[:n]
        out.append(tuple(b))
        for i in sorted({0, 1, n // 2, n - 2, n - 1}):
            out.append(tuple(b[:i] + [b[i] - 32] + b[i + 1:]))
        out.append(tuple(x - 32 for x in b))
        out.append(tuple(b[:-1] + [200]))
        out.append(tuple([200] + b[1:]))
    return out


def body_words(p, t, part, nparts):
    def body(I, st):
        I.step_limit = 1 << 60
        C = Cmp(p, I, t)
        ws = words()
        n = 0
        if not C.ordered:
            hs = {}
            for w in ws:
                h = C.hash(lit(w))
                if isinstance(h, tuple):
                    h = w
                if not isnum(h) and not isinstance(h, tuple):
                    raise Unsupported("hash value")
                o = hs.setdefault(fold(w), (h, w))
                if o[0] != h:
                    raise Fail(C.where("hash"), "equal names have different hashes", {"names": [o[1], w]})
            for c in range(256):
                for pre in ((), (107, 228)):
                    a, b = C.hash(lit(pre + (c,))), C.hash(lit(pre + (low(c),)))
                    if a != b and not (isinstance(a, tuple) and c == low(c)):
                        raise Fail(C.where("hash"), "equal names have different hashes", {"character": c})
        rel = {}
        for i, a in enumerate(ws):
            if i % nparts != part and C.ordered is False:
                continue
            for j, b in enumerate(ws):
                if len(a) > 2 and len(b) > 2 and abs(len(a) - len(b)) > 1:
                    continue
                if C.ordered and i % nparts != part and j % nparts != part:
                    continue
                x = C.rel(lit(a), lit(b))
                n += 1
                same = fold(a) == fold(b)
                rel[a, b] = x
                if not C.ordered and x != same:
                    raise Fail(C.where("cmp"), "names that differ only in ASCII letter case are not equal" if same
                               else "different names are equal", {"names": [a, b]})
        if C.ordered:
            for (a, b), x in rel.items():
                y = rel.get((b, a))
                if y is None:
                    continue
                if x and y:
                    raise Fail(C.where("cmp"), "two names are each less than the other", {"names": [a, b]})
                if (not x and not y) != (fold(a) == fold(b)):
                    raise Fail(C.where("cmp"), "different names are equivalent" if not x else "names that differ only in ASCII letter case are not equivalent",
                               {"names": [a, b]})
            if part == 0:
                S = [w for w in ws if len(w) < 3]
                R = {}
                for a in S:
                    for b in S:
                        R[a, b] = rel[a, b] if (a, b) in rel else C.rel(lit(a), lit(b))
                for a in S:
                    less = [b for b in S if R[a, b]]
                    for b in less:
                        for c in S:
                            if R[b, c] and not R[a, c]:
                                raise Fail(C.where("cmp"), "the order of names is not transitive", {"names": [a, b, c]})
        return {"pairs": n}
    return body


def body_order(p, t, part, nparts):
    """Transitivity over all single characters."""
    def body(I, st):
        C = Cmp(p, I, t)
        I.step_limit = 1 << 60
        L = {}
        for a in range(part, 256, nparts):
            for b in range(256):
                L[a, b] = C.rel(lit((a,)), lit((b,)))
        return {"order": [(a, [b for b in range(256) if L[a, b]]) for a in range(part, 256, nparts)], "pairs": len(L)}
    return body


def check(pid, tier):
    p = prog.load([os.path.join(prog.REPO, s) for s in SOURCES])
    tabs = tables(p)
    owners = {o for o, _, _ in tabs}
    if not any("StringPool" in o for o in owners) or not any("Environment" in o for o in owners):
        raise AnalysisBroken("the name tables of StringPool and Environment were not found")
    deadline = time.time() + (400 if tier == "quick" else 800)
    uniq = {}
    for o, m, t in tabs:
        key = (t.n, tuple(getattr(x, "key", str(x)) for x in t.a[2:4]) if t.n.startswith("std::unordered") else (getattr(t.a[2], "key", "?") if len(t.a) > 2 else ""))
        uniq.setdefault(key, (t, []))[1].append("%s::%s" % (o, m))
    jobs = []
    for key, (t, users) in uniq.items():
        for i, ctx in enumerate(CTX):
            ds = list(range(256)) if i == 0 else list(range(0, 256, 5)) + [64, 65, 90, 91, 96, 97, 122, 123, 127, 128]
            for k in range(0, len(ds), 32):
                jobs.append((t, "pairs", body_pairs(p, t, ctx, ds[k:k + 32])))
        for k in range(16):
            jobs.append((t, "words", body_words(p, t, k, 16)))
        if t.n in ("std::map", "std::set"):
            for k in range(4):
                jobs.append((t, "order", body_order(p, t, k, 4)))

    def one(j):
        return j[0].n, j[1], explore(p, j[2], max_paths=4000, deadline=deadline)
    rs = parallel(one, jobs)
    res = Result()
    tot = Out()
    order = {}
    for n, kind, o in rs:
        tot.merge(o)
        for (w, what, d, l) in o.fails:
            res.add(w, what, d, l)
        if kind == "order":
            for x in o.data:
                order.update(dict(x["order"]))
    if len(order) == 256:
        S = {a: set(b) for a, b in order.items()}
        for a in S:
            for b in S[a]:
                if not S[b] <= S[a]:
                    res.add("simfil::CaseInsensitiveCompare", "the order of names is not transitive", {"characters": [a, b]})
                    break
    if not tot.done:
        res.notes.append("INCONCLUSIVE: " + "; ".join(list(tot.unsupported)[:3]))
    pairs = sum(x.get("pairs", 0) for x in tot.data)
    res.coverage = {
        "explanation": "abstract interpretation of the comparison and hash objects of every name table: one side holds an abstract character (all 256 "
                       "values), the other every character in turn, in several contexts; plus all pairs of a word list with lengths up to 65",
        "summary": "%d kinds of table, %d paths, %d compared pairs" % (len(uniq), tot.paths, pairs),
        "tables": {str(k): u for k, (t, u) in uniq.items()}, "paths": tot.paths, "paths_decided": tot.done, "compared_pairs": pairs,
        "inconclusive": tot.unsupported, "functions": sorted({p.funcs[i]["n"] for i in tot.covered if i in p.funcs}),
        "samples": [str(k) for k in uniq],
    }
    res.assumptions = ["the classic locale is the global locale",
                       "longer names behave like the word list: the comparison looks at the characters of both names one after the other"]
    return res
