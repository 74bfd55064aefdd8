"""X03: what trace() records, against the values its expression delivers."""
import time
from engine import lib
from engine.dom import *
from engine.interp import *
from .core import AnalysisBroken
from .explore import *
from .c_expr import load, show, Scene, EW, EVAL, COMP, UNDEF, NULLV, N1, CONT, STOP, exc_name, USER_ERRORS, strcell, run_eval
from .c_ops import pystr

TRACE = "src/function.cpp: simfil::TraceFn::eval"
SEQS = [[], [("int", 1)], [("int", 1), ("int", 2), ("int", 3)], [("view", "ab"), NULLV, ("view", "")], [("str", "x"), N1, ("node", 3)], [("bool", 0), ("int", 1), ("bool", 1), ("int", 4), ("int", 5)],
        [("range", 1, 3), ("view", "v" * 100)], [("int", 6), ("int", 7)]]
SHAPE = {1: ("object", None, [2, 3]), 2: ("int", 1, []), 3: ("string", "x", [])}


def body(p, text, entries, times, stops, any=False):
    """entries: {name: (source, limit)} expected after `times` evaluations of the text."""
    def go(I, st):
        sc = Scene(p, None, text=text, any=any)

        def setup(W):
            seqs = SEQS if not (stops or times > 1) else [SEQS[k] for k in (0, 2, 3)] if not stops or times == 1 else [SEQS[2], SEQS[7]]
            W.seqs, W.mode, W.shape = {k: seqs if k == 0 or times == 1 and not stops else seqs[-1:] for k in range(4)}, {k: "unknown" for k in range(4)}, SHAPE
        W = sc.fresh(I, st, setup)
        d = {"query": text}
        if W.num(Cell(W.call("t_count", W.env))):
            raise Fail(TRACE, "a trace is recorded although the query was only compiled", d)
        rec = {n: [] for n in entries}
        calls = {n: 0 for n in entries}
        for t in range(times):
            W.phase, W.stops = EVAL, stops
            W.out, W.answers, W.active, W.evals = [], [], [], []
            W.memo = {}
            runs = []      # (source, values) of every evaluation of a source
            nxt = W.h_next

            def h(I, this, a, loc):
                n = len(W.evals)
                r = nxt(I, this, a, loc)
                if len(W.evals) > n:
                    runs.append((W.num(a[0]), []))
                if r is not NULL:
                    [x for k, x in runs if k == W.num(a[0])][-1].append(W.describe(r.c))
                return r
            I.hooks["probe::next"] = h
            try:
                W.call("e_eval", W.env, W.x, EVAL, W.make(N1))
            except CxxThrow as e:
                raise Fail(site(e.loc)[0], "evaluating a traced expression raises an error (%s)" % exc_name(e), d)
            for n, (k, lim) in entries.items():
                for s, vs in runs:
                    if s == k:
                        calls[n] += 1
                        rec[n] += vs or [NULLV]
            if text.startswith("trace(p()") and not any and W.out != (runs[0][1] or [NULLV]):
                raise Fail(TRACE, "trace does not deliver the values of its expression", dict(d, delivered=show(W.out), expected=show(runs[0][1])))
        d["values"] = str(rec)
        n = W.num(Cell(W.call("t_count", W.env)))
        live = {k for k in entries if calls[k]}
        if n != len(live):
            raise Fail(TRACE, "%d trace entries are recorded instead of %d" % (n, len(live)), d)
        for name in live:
            k, lim = entries[name]
            if not W.num(Cell(W.call("t_has", W.env, strcell(name)))):
                raise Fail(TRACE, "a trace is not recorded under its name", dict(d, name=name))
            if W.num(Cell(W.call("t_calls", W.env, strcell(name)))) != calls[name]:
                raise Fail(TRACE, "the number of calls in a trace is not the number of evaluations", dict(d, name=name))
            want = rec[name] if lim is None or lim < 0 else rec[name][:lim]
            m = W.num(Cell(W.call("t_size", W.env, strcell(name))))
            if m != len(want):
                raise Fail(TRACE, "a trace does not keep all values up to its limit" if m < len(want) else "a trace keeps more values than its limit and its expression allow",
                           dict(d, name=name, kept=m, expected=len(want), limit=lim))
            for i, w in enumerate(want):
                v = W.call("t_at", W.env, strcell(name), i)
                c = W.call("t_value", v)
                c = c if isinstance(c, Cell) else Cell(c)
                if W.num(Cell(W.call("t_view", v))):
                    raise Fail(TRACE, "a recorded text refers to storage the trace does not own", dict(d, name=name))
                if W.describe(c) != w:
                    raise Fail(TRACE, "a trace records another value than the expression delivered", dict(d, name=name, value=i))
    return go


def jobs(p, tier):
    J = []
    for stops in (False, True):
        for times in (1, 2) if tier == "quick" else (1, 2, 3):
            add = lambda t, e, **k: J.append((t, body(p, t, e, times, stops, **k)))
            add("trace(p())", {"(p)": (0, None)})
            for l in (-1, 0, 1, 2, 3, 7):
                add("trace(p(), %d)" % l, {"(p)": (0, l)})
                add("trace(p(), %d, 'n')" % l, {"n": (0, l)})
            add("trace(p(), -1, 'n')", {"n": (0, None)})
            add("trace(trace(p(), 1, 'a'), 2, 'b')", {"a": (0, 1), "b": (0, 2)})
            add("arr(trace(p(), 2, 'a'), trace(q(), 1, 'b'))", {"a": (0, 2), "b": (1, 1)})
            add("count(trace(p(), 2, 'a'))", {"a": (0, 2)})
            add("trace(p(), 2, 'a')", {"a": (0, 2)}, any=True)
            add("_{trace(p(), 2, 'a')}", {"a": (0, 2)})
            add("*{trace(p(), 3, 'a')}", {"a": (0, 3)})
            add("*{trace(p(), -1, 'a')}", {"a": (0, None)})
    return J


def check(pid, tier):
    from .c_values import run
    p = load()
    return run(p, pid, jobs(p, tier), time.time() + (420 if tier == "quick" else 800),
               "trace() over every listed sequence of values of every kind, limits, names, nested and next to each other, evaluated once and again, with a consumer that stops at every value: number, order and "
               "contents of the recorded values, calls and names, and the ownership of recorded texts", n=32)
