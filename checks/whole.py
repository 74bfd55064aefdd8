"""The whole program: all translation units, call graph helpers."""
import os
from engine import prog
from .core import AnalysisBroken

_P = None


def load():
    global _P
    if _P is None:
        us = prog.units()
        if not us:
            raise AnalysisBroken("no sources found under src/")
        _P = prog.load(us)
    return _P


def walk(o):
    """All nodes of a tree."""
    st = [o]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            yield x
            st.extend(v for v in x.values() if isinstance(v, (dict, list)))
        elif isinstance(x, list):
            st.extend(v for v in x if isinstance(v, (dict, list)))


def defined(p):
    for f in p.funcs.values():
        if "body" in f:
            yield f


def rel(path):
    return path.replace(prog.REPO.rstrip("/") + "/", "")


def where(f):
    return "%s: %s" % (rel(f["f"]), f["n"])


def callees(p, f):
    """Ids of repository functions that f may call or take the address of (virtual calls: every override; closures: their bodies)."""
    out = set()
    for n in walk([f.get("body"), f.get("inits")]):
        fn = n.get("fn")
        if isinstance(fn, dict) and "id" in fn:
            out.add(fn["id"])
        if n.get("k") == "ref" and n.get("id") in p.funcs:
            out.add(n["id"])
        if n.get("k") == "lambda":
            r = n.get("rec") or n.get("id")
            rec = p.recs.get(r)
            if rec:
                out.update(rec.get("ops", ()))
    return out
