"""E06, X02: shared state during evaluation, and the debug observer. The scenarios are those of the expression analyses (c_expr): every construct
and function with operands, inputs and consumers chosen by the analysis."""
import time
from engine import prog, lib
from engine.dom import *
from engine.interp import *
from .core import Result, AnalysisBroken
from .explore import *
from . import c_expr
from .c_expr import Scene, EW, EVAL, COMP, STOP, CONT, run_eval, UNDEF, NULLV, I1, N1, TREE, text_of, internal
from .c_pool import Pools

MUT = Pools.MUT | {"replace", "append", "operator+=", "operator++", "operator--", "reset", "emplace_value"}
WRITES_ARGS = {"swap", "exchange", "iter_swap"}


class Spec:
    def __init__(self, scene, seqs, inputs, shapes, phase, mode):
        self.scene, self.seqs, self.inputs, self.shapes, self.phase, self.mode = scene, seqs, list(inputs), list(shapes), phase, mode


def specs(p, tier, debug=False):
    """The scenarios of the expression analyses, as data."""
    out = []

    def rec(scene, seqs, inputs, shapes, phase=EVAL, mode="unknown", **k):
        out.append(Spec(Scene(p, scene.e, scene.any, scene.wild, scene.text, debug), seqs, inputs, shapes, phase, mode))

    def rec_any(p, text, seqs, inputs, phase, mode, shapes=c_expr.LEAN):
        out.append(Spec(Scene(p, None, text=text, debug=debug), seqs, inputs, shapes, phase, mode))
    keep = c_expr.body, c_expr.any_body
    c_expr.body, c_expr.any_body = rec, rec_any
    try:
        for j in (c_expr.jobs_e01, c_expr.jobs_e04, c_expr.jobs_e05) + ((c_expr.jobs_e02,) if tier == "thorough" else ()):
            j(p, tier)
    finally:
        c_expr.body, c_expr.any_body = keep
    seen, res = set(), []
    for s in out:
        k = (s.scene.text, s.phase)
        if tier == "quick" and k in seen:
            continue
        seen.add(k)
        if tier == "quick":
            n = 2 if debug else 3
            s.seqs = {a: b[:1] + b[-1:] if debug else b[:3] for a, b in s.seqs.items()}
            s.inputs, s.shapes = s.inputs[:n], s.shapes[:1] + s.shapes[-1:] if len(s.shapes) > 1 and not debug else s.shapes[:1]
        res.append(s)
    return res


# ------------------------------------------------------------------ debug observer

def depth(I):
    """Evaluations that are running: the objects whose evaluation is on the stack."""
    out = []
    for f in I.frames:
        if f.fn["n"].split("<")[0].endswith("ieval") or f.fn["n"].endswith("::ieval"):
            t = f.this
            if isinstance(t, Ptr):
                out.append(t.c.v)
    return out


def short(W, x):
    return getattr(x, "rid", "?").split(":")[-1].split(" ")[-1]


def debug_body(s):
    sc = s.scene

    def go(I, st):
        W = sc.attach(I, st)
        W.seqs, W.mode = s.seqs, {k: s.mode for k in range(4)}
        W.shape = s.shapes[st.choose(len(s.shapes), "model")]
        W.phase, W.stops = s.phase, s.phase == EVAL
        open_ = []
        known = []

        def where():
            return "include/simfil/expression.h: simfil::Expr::eval"

        def begin(I, t, a, l):
            x = lib.rd(I, a[0]).c.v
            known.append(x)
            if any(y is x for y in depth(I)) and not any(y is x for y in open_):
                raise Fail(where(), "the begin of an evaluation is reported after it started", W.detail())
            open_.append(x)

        def end(I, t, a, l):
            x = lib.rd(I, a[0]).c.v
            if not open_ or open_[-1] is not x:
                raise Fail(where(), "the end of an evaluation is reported that is not the innermost one", W.detail())
            open_.pop()

        def at(what):
            d = depth(I)
            if len(d) != len(open_) or any(a is not b for a, b in zip(d, open_)):
                det = W.detail()
                det["running"] = " ".join(short(W, x) for x in d)
                det["observed"] = " ".join(short(W, x) for x in open_)
                raise Fail(where(), "the observer was told other evaluations than those that run when %s" % what, det)

        I.hooks["probe::eval_begin"], I.hooks["probe::eval_end"] = begin, end
        nxt, dlv = W.h_next, W.h_deliver
        boom = [False]

        def h_next(I, this, a, loc):
            at("an operand is evaluated")
            if not boom[0] and s.phase == EVAL and st.choose(2, "operand raises an error") == 1:
                boom[0] = True
                I.throw("std::runtime_error", "operand", loc)
            return nxt(I, this, a, loc)

        def h_deliver(I, this, a, loc):
            at("a value is delivered")
            if not boom[0] and s.phase == EVAL and st.choose(2, "consumer raises an error") == 1:
                boom[0] = True
                I.throw("std::runtime_error", "consumer", loc)
            return dlv(I, this, a, loc)
        I.hooks["probe::next"], I.hooks["probe::deliver"] = h_next, h_deliver
        v = s.inputs[st.choose(len(s.inputs), "input")]
        err = None
        try:
            run_eval(W, v)
        except CxxThrow as e:
            err = e
        if open_:
            d = W.detail()
            d["error"] = "yes" if err is not None else "no"
            raise Fail(where(), "an evaluation that %s is never reported as ended" % ("raises an error" if err is not None else "returns"), d)
        if not known:
            raise Fail(where(), "the observer is not told about an evaluation", W.detail())
        sc.ok = err is None
        return None
    return go


# ------------------------------------------------------------------ shared state

class Shared:
    """Everything reachable from the environment, the compiled expression, the model and the statics."""

    def __init__(self, I):
        self.I = I
        self.label = {}
        self.keep = []
        self.mutexes = {}

    def mark(self, root, label):
        todo = [(root, label)]
        while todo:
            x, lb = todo.pop()
            if x is None or isinstance(x, (int, float, str, bytes, bool)) or id(x) in self.label:
                continue
            if isinstance(x, Cell):
                self.label[id(x)] = lb
                self.keep.append(x)
                todo.append((x.v, lb))
            elif isinstance(x, Rec):
                self.label[id(x)] = lb
                self.keep.append(x)
                cls = x.rid.split(":")[-1].split(" ")[-1].split("<")[0]
                for (r, n), c in x.f.items():
                    todo.append((c, "%s::%s" % (cls, n) if n and not n.startswith("#") else cls))
            elif isinstance(x, (Ptr,)):
                todo.append((x.c, lb))
            elif isinstance(x, (list, tuple)):
                if len(x) < 5000:
                    for y in x:
                        todo.append((y, lb))
            elif isinstance(x, dict):
                continue
            elif isinstance(x, StdObj) or type(x).__name__ in ("Ctl", "Arr", "APtr"):
                self.label[id(x)] = lb
                self.keep.append(x)
                if isinstance(x, lib.MutexObj):
                    self.mutexes[id(x)] = (lb, x)
                for a in attrs(x):
                    todo.append((a, lb))
        return self

    def of(self, c):
        return self.label.get(id(c))

    def held(self, write):
        return {lb for lb, m in self.mutexes.values() if m.excl or (m.shared and not write)}


def attrs(x):
    d = getattr(x, "__dict__", None)
    if d is not None:
        return [v for k, v in d.items() if k not in ("t", "et", "kt", "vt", "types", "name")]
    return [getattr(x, n, None) for n in getattr(type(x), "__slots__", ())]


def shared_body(s, reports=False):
    """reports: only the warnings and traces of the environment."""
    sc = s.scene

    def go(I, st):
        W = sc.attach(I, st)
        W.seqs, W.mode = s.seqs, {k: s.mode for k in range(4)}
        W.shape = s.shapes[st.choose(len(s.shapes), "model")]
        W.phase, W.stops = EVAL, False
        sh = Shared(I)
        tls = {id(c) for i, c in I.statics.items() if (I.p.vars.get(i) or {}).get("tls")}
        known = set()

        def statics():
            for i, c in I.statics.items():
                v = I.p.vars.get(i) or {}
                if v.get("tls"):
                    tls.add(id(c))
                elif i not in known:
                    known.add(i)
                    sh.mark(c, "static %s" % v.get("n", "variable"))
        for root, lb in ((W.env, "Environment"), (W.x, "expression"), (W.model, "model")):
            sh.mark(root, lb)
        if reports:
            env = W.env.c.v
            sub = Shared(I)
            for (r, n), c in env.f.items():
                if n in ("warnings", "traces"):
                    sub.mark(c, "Environment::%s" % n)
            if not sub.label:
                raise AnalysisBroken("the environment has no warnings and traces")
            sh.label = sub.label
        else:
            statics()
        v = s.inputs[st.choose(len(s.inputs), "input")]
        seen = {}

        def access(lb, write, loc):
            held = sh.held(write)
            w, l = site(loc if isinstance(loc, str) else I.here(loc))
            if write and not held:
                raise Fail(w, "evaluation changes %s, which is shared with other threads, without synchronisation" % lb, W.detail(), l)
            k = lb
            a = seen.setdefault(k, [None, None, w, l])
            i = 0 if write else 1
            a[i] = held if a[i] is None else a[i] & held
            if write:
                a[2], a[3] = w, l

        def onwrite(I, c, node):
            lb = sh.of(c)
            if lb is not None and id(c) not in tls and not isinstance(c.v, (lib.AtomicObj, lib.MutexObj)):
                access(lb, True, node)

        def onread(I, c, node):
            lb = sh.of(c)
            if lb is not None and (c.t is None or not c.t.const) and not isinstance(c.v, (lib.AtomicObj, lib.MutexObj, Rec)):
                access(lb, False, node)

        fresh = []

        def onlib(I, info, this, args, loc):
            while fresh:
                c, lb = fresh.pop()
                sh.label.pop(id(c), None)
                sh.label.pop(id(c.v), None)
                sh.mark(c, lb)
            m = lib.base_name(info["n"])[1]
            if this is not None and isinstance(this.c.v, StdObj) and not isinstance(this.c.v, (lib.AtomicObj, lib.MutexObj, lib.LockObj)):
                o = this.c.v
                lb = sh.of(this.c) or sh.of(o)
                if lb is not None:
                    mut = m in MUT and not (m == "operator[]" and isinstance(o, lib.VecObj)) and not (m == "operator=" and isinstance(o, lib.SPtr) and id(this.c) not in sh.label)
                    access(lb, mut, loc)
                    if mut:
                        fresh.append((this.c, lb))
            if m in WRITES_ARGS:
                for a in args:
                    if isinstance(a, Cell) and sh.of(a) is not None:
                        access(sh.of(a), True, loc)
        I.writehook, I.readhook, I.libcallhook = onwrite, onread, onlib
        for again in range(2):
            W.out, W.answers, W.active = [], [], []
            try:
                run_eval(W, v)
            except CxxThrow as e:
                pass
            if again == 0 and not reports:
                statics()
        sc.ok = True
        ctx[0].data.append({k: (sorted(a[0]) if a[0] is not None else None, sorted(a[1]) if a[1] is not None else None, a[2], a[3]) for k, a in seen.items() if a[0] is not None or len(a) and a[1] is not None})
    return go


ctx = [None]

EXPL = {
    "E06": "every construct and function evaluated twice with the environment, the compiled expression, the model and all static variables marked as shared: each write to them must hold a lock or be "
           "atomic, and the locks held by all accesses to a location that is ever written must intersect",
    "X02": "every construct and function evaluated with an observer installed, with operands and consumers that stop or raise errors at every point: begin and end reports against the evaluations that "
           "actually run, and the lock of the environment during changes of warnings and traces",
}


def run(p, pid, J, deadline, n=64, max_paths=3000):
    def group(js):
        tot = Out()
        ctx[0] = tot
        for name, body in js:
            o = explore(p, body, max_paths=max_paths, deadline=deadline)
            tot.merge(o)
        d = {}
        for x in tot.data:
            for k, (w, r, a, b) in x.items():
                e = d.setdefault(k, [None, None, a, b])
                for i, v in ((0, w), (1, r)):
                    if v is not None:
                        e[i] = set(v) if e[i] is None else e[i] & set(v)
                if w is not None:
                    e[2], e[3] = a, b
        tot.data = [d]
        return tot
    res = Result()
    tot = Out()
    locks = {}
    for o in parallel(group, [J[i::n] for i in range(n)]):
        for d in o.data:
            for k, (w, r, a, b) in d.items():
                e = locks.setdefault(k, [None, None, a, b])
                for i, v in ((0, w), (1, r)):
                    if v is not None:
                        e[i] = set(v) if e[i] is None else e[i] & set(v)
                if w is not None:
                    e[2], e[3] = a, b
        o.data = []
        tot.merge(o)
    guarded = {}
    for k, (w, r, a, b) in locks.items():
        if w is None:
            continue
        both = w if r is None else w & r
        guarded[k] = sorted(both)
        if not both:
            res.add(a, "accesses to %s during evaluation hold no common lock" % k, {"writes": sorted(w), "reads": sorted(r or ())}, b)
    for (w, what, d, l) in tot.fails:
        res.add(w, what, d, l)
    if not tot.done:
        raise AnalysisBroken("no path could be decided: %s" % list(tot.unsupported)[:3])
    res.coverage = {
        "explanation": EXPL[pid], "summary": "%d scenarios, %d paths, %d decided%s" % (len(J), tot.paths, tot.done, ", %d locations read or written" % len(locks) if locks else ""),
        "scenarios": len(J), "paths": tot.paths, "paths_decided": tot.done, "inconclusive": tot.unsupported, "locked": guarded,
        "functions": sorted({p.funcs[i]["n"] for i in tot.covered if i in p.funcs and p.funcs[i]["f"].startswith(prog.REPO)}),
    }
    res.assumptions = ["the standard library behaves as its modelled specification", "nodes of the model are an abstract tree; the storage of ModelPool is not part of this analysis"]
    return res


def check(pid, tier):
    p = c_expr.load()
    deadline = time.time() + (420 if tier == "quick" else 780)
    J = []
    if pid == "X02":
        for s in specs(p, tier, debug=True):
            J.append((s.scene.text, debug_body(s)))
        for s in specs(p, tier):
            if s.phase == EVAL and ("trace(" in s.scene.text or "[" in s.scene.text):
                J.append(("reports of " + s.scene.text, shared_body(s, True)))
    else:
        for s in specs(p, tier):
            if s.phase == EVAL:
                J.append((s.scene.text, shared_body(s)))
    return run(p, pid, J, deadline)
