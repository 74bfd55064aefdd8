"""X01: every throw of the library goes through the error hook."""
import os
import time
from engine import prog, lib, text as T
from engine.dom import *
from engine.interp import *
from .core import Result, AnalysisBroken
from .explore import *
from .whole import *

RAISE = "simfil::raise"
HANDLER = "simfil::ThrowHandler"
NESTED = ("std::throw_with_nested", "std::rethrow_exception", "std::rethrow_if_nested")


def catches(p, tr, what):
    """A try statement that catches `what` (or everything) without rethrowing it."""
    for h in tr.get("h", ()):
        t = h.get("t")
        n = None
        if t is not None:
            x = t
            while x is not None and x.k in "lrp":
                x = x.to
            n = x.n if x is not None and x.n else (x.rec if x is not None else None)
            n = (n or "").replace("class ", "").replace("struct ", "")
        if n is None or any(n.endswith(w) for w in what):
            if any(y.get("k") == "throw" and y.get("e") is None for y in walk(h.get("b"))):
                return False
            return True
    return False


def sites(p, f):
    """(node, stack of enclosing try statements whose protected part contains it)"""
    out = []

    def go(o, tries):
        if isinstance(o, dict):
            if o.get("k") == "try":
                for key, v in o.items():
                    if isinstance(v, (dict, list)):
                        go(v, tries + [o] if key == "b" else tries)
                return
            out.append((o, tries))
            for v in o.values():
                if isinstance(v, (dict, list)):
                    go(v, tries)
        elif isinstance(o, list):
            for v in o:
                if isinstance(v, (dict, list)):
                    go(v, tries)
    go([f.get("body"), f.get("inits")], [])
    return out


def run_raise(p, f):
    """All handler histories before one raise<E>(...)."""
    def body(I, st):
        E = f["ta"][0] if f.get("ta") else None
        inst = [g for g in p.byname.get(HANDLER + "::instance", []) if "body" in g]
        sets = [g for g in p.byname.get(HANDLER + "::set", []) if "body" in g]
        if not inst or not sets:
            raise AnalysisBroken("ThrowHandler::instance or set not found")
        log = []

        def handler(tag):
            def h(I, args, loc):
                log.append((tag, [lib.as_text(I, a) for a in args]))
                if tag == "throws":
                    raise CxxThrow(LibExc("std::logic_error", "from the handler"), None, "handler")
                return None
            return Cell(lib.FunObj(Cell(h)))

        def put(*tags):
            for t in tags:
                th = I.invoke(inst[0], None, [], None)
                I.invoke(sets[0], Ptr(th), [Cell(lib.FunObj()) if t is None else handler(t)], None)
        hist = [(), ("a",), ("a", "b"), ("a", None), ("a", None, "b"), ("throws",), ("a", "a2", "b"), (None, "a"),
                ("!", "a"), ("a", "!", "b"), ("a", "!", None), ("!", "a", "!", "b", "!", None, "!", "a"), ("throws", "!", "a"), ("a", "!", "throws")]
        hist = hist[st.choose(len(hist), "handlers")]
        parts = [[]]
        for h in hist:
            if h == "!":
                parts.append([])
            else:
                parts[-1].append(h)
        hs = []
        msg = b"boom: 17"

        def raising(n):
            args = []
            for q in f["ps"]:
                t = q["t"]
                while t.k in "lr":
                    t = t.to
                if t.k == "a":
                    args.append(Cell(lib.CStr((msg * 20)[:max((t.sz or 9) - 1, 0)])))
                elif t.k == "p":
                    args.append(Cell(APtr(lib.CStr(msg), 0)))
                elif t.n == "std::basic_string":
                    args.append(Cell(lib.StrObj(T.Text([("c", x) for x in msg]))))
                elif t.n == "std::basic_string_view":
                    args.append(Cell(lib.SvObj(T.Text([("c", x) for x in msg]))))
                else:
                    raise Unsupported("raise with %r" % t)
            try:
                I.invoke(f, None, args, None)
            except CxxThrow as e:
                return e
            raise Fail(where(f), "raise returns without throwing")
        for n, part in [(n, q) for q in parts for n in range(2)]:
            if n == 0:
                put(*part)
                hs += part
            del log[:]
            e = raising(n)
            last = hs[-1] if hs else None
            exp = [] if last is None else [last]
            if [x[0] for x in log] != exp:
                raise Fail(where(f), "the error is thrown without calling the installed handler" if exp and not log else
                           "a handler that is no longer installed is called" if log and exp != [x[0] for x in log[:1]] else
                           "the handler is not called exactly once", {"installed": [str(h) for h in hs], "called": [x[0] for x in log]})
            if last == "throws":
                if not (isinstance(e.v, LibExc) and e.v.n == "std::logic_error"):
                    raise Fail(where(f), "an exception of the handler is lost")
                continue
            v = e.v.v if isinstance(e.v, Cell) else e.v
            if E is not None:
                n1 = (E.n or E.rec or "").replace("struct ", "").replace("class ", "")
                n2 = v.n if isinstance(v, LibExc) else p.recs[v.rid].get("n") if isinstance(v, Rec) else "?"
                if n1 != n2:
                    raise Fail(where(f), "the thrown error has another type than the one raised", {"raised": n1, "thrown": n2})
            if log:
                ty, what = log[0][1][0], log[0][1][1]
                if T.length(st, ty) == 0:
                    raise Fail(where(f), "the handler gets no type name")
                if isinstance(v, LibExc):
                    w = v.what
                    w = lib.as_text(I, Cell(w)) if w is not None and not isinstance(w, T.Text) else w
                    if w is not None and not T.eq(st, w, what, "message"):
                        raise Fail(where(f), "the handler gets another message than the error carries")
        return {"handlers": 1}
    return body


def check(pid, tier):
    p = load()
    res = Result()
    raises = [f for f in defined(p) if f["n"] == RAISE]
    if not raises:
        raise AnalysisBroken("simfil::raise is never used")
    callers = {}
    calls = {}
    for f in defined(p):
        for c in callees(p, f):
            callers.setdefault(c, set()).add(f["id"])
            calls.setdefault(f["id"], set()).add(c)
    lamowner = {}

    def hooked(fid, seen):
        """The function (or one it calls) asks the ThrowHandler."""
        if fid in seen:
            return False
        seen.add(fid)
        f = p.funcs.get(fid)
        if f is None or f["n"] == RAISE:
            return False
        if f["n"].startswith(HANDLER + "::"):
            return True
        return any(hooked(c, seen) for c in calls.get(fid, ()))

    def onlyraise(fid, seen):
        f = p.funcs[fid]
        if f["n"] == RAISE:
            return True
        if fid in seen:
            return True
        seen.add(fid)
        cs = callers.get(fid, set())
        return bool(cs) and all(onlyraise(c, seen) for c in cs)
    nthrow = nfun = nre = 0
    for f in defined(p):
        if "/test/" in f["f"]:
            continue
        nfun += 1
        for n, tries in sites(p, f):
            k = n.get("k")
            if k == "throw":
                nthrow += 1
                if n.get("e") is None or f["n"] == RAISE:
                    continue
                if any(catches(p, t, ()) for t in tries) or onlyraise(f["id"], set()) or hooked(f["id"], set()):
                    continue
                res.add(where(f), "an error is thrown without going through the error hook", None, "%s:%s" % (rel(f["f"]), n.get("l")))
            fn = n.get("fn")
            if isinstance(fn, dict) and fn.get("n") in NESTED:
                res.add(where(f), "an error is thrown without going through the error hook", fn["n"], "%s:%s" % (rel(f["f"]), n.get("l")))
            if isinstance(fn, dict) and fn.get("n", "").startswith("std::basic_regex") and n.get("as"):
                nm = fn["n"].split("::")[-1]
                t = fn.get("ps", [None])[0] if fn.get("ps") else None
                while t is not None and t.k in "lrp":
                    t = t.to
                if nm not in ("basic_regex", "assign", "operator=") or t is None or not (t.n in ("std::basic_string", "char") or t.k == "i"):
                    continue
                if any(x.get("k") == "str" for x in walk(n["as"][0])) and not any(x.get("k") == "ref" for x in walk(n["as"][0])):
                    continue   # a constant pattern
                nre += 1
                what = ("regex_error", "runtime_error", "std::exception")

                def escapes(fid, tries, seen):
                    if any(catches(p, t, what) for t in tries):
                        return False
                    if fid in seen:
                        return False
                    seen.add(fid)
                    cs = callers.get(fid, set())
                    if not cs:
                        return True
                    for c in cs:
                        for m, tr in sites(p, p.funcs[c]):
                            g = m.get("fn")
                            if isinstance(g, dict) and g.get("id") == fid and escapes(c, tr, seen):
                                return True
                    return False
                if escapes(f["id"], tries, set()):
                    res.add(where(f), "the error of an invalid regular expression leaves the library without going through the error hook",
                            None, "%s:%s" % (rel(f["f"]), n.get("l")))
    deadline = time.time() + 300
    tot = Out()
    uniq = {}
    for f in raises:
        key = (getattr(f["ta"][0], "key", "?"), tuple(getattr(q["t"], "k", "?") + str(getattr(q["t"].to, "k", "")) for q in f["ps"]))
        uniq.setdefault(key, f)
    if tier == "thorough":
        uniq = {f["id"]: f for f in raises}
    fs = list(uniq.values())
    for f, o in zip(fs, parallel(lambda f: explore(p, run_raise(p, f), max_paths=100, deadline=deadline), fs)):
        tot.merge(o)
        for (w, what, d, l) in o.fails:
            res.add(w, what, d, l)
    if not tot.done:
        res.notes.append("INCONCLUSIVE: " + "; ".join(list(tot.unsupported)[:3]))
    res.coverage = {
        "explanation": "effect analysis over every function of the library: throw expressions, rethrow helpers and regular expression construction; "
                       "abstract interpretation of every instantiation of raise() under fourteen histories of installed handlers",
        "summary": "%d functions, %d throw expressions, %d raise instantiations, %d handler histories" % (nfun, nthrow, len(raises), tot.done),
        "functions": nfun, "throw_expressions": nthrow, "raise_instantiations": len(raises), "regex_constructions": nre,
        "paths": tot.paths, "paths_decided": tot.done, "inconclusive": tot.unsupported, "samples": [where(f) for f in raises[:3]],
    }
    res.assumptions = ["errors of the standard library other than std::regex_error and of the JSON parser are outside this property",
                       "templates are analysed in the instantiations the library uses"]
    return res
