"""L01-L05."""
import os
from engine import prog
from engine.dom import *
from engine.interp import *
from . import lexer, reflex
from .core import Result, AnalysisBroken

SOURCES = ("src/token.cpp", "src/exception-handler.cpp")
RULE = ("abstract interpretation of simfil::tokenize, its callees and the reference automaton of the language guide over one abstract "
        "input of unknown length; quantities are renamed relative to token begin, position, end and literal value at every loop head and "
        "states are explored until none is new; every emitted token, thrown error and normal return is compared")


def site(loc):
    """'src/token.cpp:421 (simfil::tokenize)' -> ('src/token.cpp: simfil::tokenize', 'src/token.cpp:421')"""
    if not loc or "(" not in loc:
        return "src/token.cpp: simfil::tokenize", loc
    loc = loc.replace(prog.REPO.rstrip("/") + "/", "")
    f, fn = loc.split(" (", 1)
    return f.rsplit(":", 1)[0] + ": " + fn.rstrip(")"), f


def roundtrip(p, L, res):
    """Token::toString of every operator, punctuation and keyword kind is a spelling of that kind."""
    spell = {}
    for k, v in reflex.SINGLE.items():
        spell[v] = {k}
    for k, v in reflex.KEYWORDS.items():
        spell[v] = {k}
    for v, s in (("OP_UNPACK", "..."), ("WILDCARD", "**"), ("DOT", "."), ("OP_TIMES", "*"), ("OP_LSHIFT", "<<"), ("OP_RSHIFT", ">>"),
                 ("OP_LTEQ", "<="), ("OP_LT", "<"), ("OP_GTEQ", ">="), ("OP_GT", ">"), ("OP_NOT_EQ", "!=")):
        spell[v] = {s}
    spell["OP_EQ"] = {"==", "="}
    fs = [f for f in p.byname.get("simfil::Token::toString", []) if "body" in f and len(f["ps"]) == 1]
    if len(fs) != 1:
        raise AnalysisBroken("Token::toString(Type) not found")
    n = 0
    from engine import text as T
    for val, name in sorted(L.types.items()):
        if name not in spell:
            continue
        st = State([])
        I = Interp(p, st)
        try:
            r = I.invoke(fs[0], None, [val], None)
            r = r.v if isinstance(r, Cell) else r
            cs = T.chars(st, r.t)
            s = "".join(chr(c) for c in cs) if cs is not None and all(isinstance(c, int) for c in cs) else None
        except UBEvent as e:
            res.add("src/token.cpp: simfil::Token::toString", "undefined behaviour for token kind %s: %s" % (name, e.msg))
            continue
        except (Unsupported, PathEnd, CxxThrow):
            continue
        if s is None:
            continue
        n += 1
        if s not in spell[name] and not (s.lower() in spell[name]):
            res.add("src/token.cpp: simfil::Token::toString", "token kind %s is spelled '%s', which is not a spelling of that kind" % (name, s))
    return n


def check(pid, tier):
    p = prog.load([os.path.join(prog.REPO, s) for s in SOURCES])
    res = Result()
    try:
        r = lexer.analyse(p, deadline=330 if tier == "quick" else 720, stop=pid)
    except lexer.AnalysisBroken as e:
        raise AnalysisBroken(str(e))
    if not r["states"] or not r["classes"]:
        why = ", ".join("%s %s" % k for k in list(r["cut"])[:3])
        res.notes.append("INCONCLUSIVE: no path of the tokenizer could be followed to a token: " + why)
    for (prop, msg, loc), (ex, tr) in sorted(r["viols"].items(), key=lambda x: str(x[0])):
        if prop == pid:
            w, line = site(loc)
            res.add(w, msg, {"token text (one example)": ex, "path": tr}, line)
    n = 0
    if pid == "L02":
        n = roundtrip(p, lexer._L, res)
    res.coverage = {
        "explanation": RULE,
        "summary": "%d abstract states, %d paths, fixpoint %s" % (r["states"], r["paths"], "reached" if r["complete"] else "not reached"),
        "abstract_states": r["states"], "paths": r["paths"], "interpreted_steps": r["steps"], "rounds": r["rounds"],
        "fixpoint_reached": r["complete"], "functions_interpreted": len(r["cov"]),
        "functions": sorted({p.funcs[i]["n"] for i in r["cov"] if i in p.funcs})[:60],
        "token_kinds_compared": sorted("%s" % (c[1],) for c in r["classes"]),
        "path_endings": r["kinds"], "inconclusive_paths": {"%s: %s" % k: v for k, v in r["cut"].items()},
        "samples": [{"class": reflex.CLS[c[0]], "kind": c[1]} for c in sorted(r["classes"])[:5]],
    }
    if n:
        res.coverage["token_kinds_spelled_back"] = n
    res.assumptions = [
        "queries are shorter than 2 GiB", "floating-point arithmetic is treated as exact (rounding is not decided)",
        "the reference automaton (checks/reflex.py) states the language; exponents without digits, exponents on binary literals and "
        "integer parts beyond 64 bit in floating literals are left open",
        "library models (engine/lib.py) behave like the C++ standard says", "a path whose values were widened never raises a violation",
    ]
    return res
