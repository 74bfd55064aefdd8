"""Depth-first exploration of all paths of a scenario under the abstract interpreter."""
import gc
import multiprocessing as mp
import os
import time
import traceback
from engine import prog
from engine.dom import *
from engine.interp import *
from .core import AnalysisBroken


class Fail(Exception):
    """A property is violated on this (exact) path."""

    def __init__(self, where, what, detail=None, line=None):
        Exception.__init__(self, what)
        self.where, self.what, self.detail, self.line = where, what, detail, line


def site(loc):
    """'src/x.cpp:421 (simfil::f)' -> ('src/x.cpp: simfil::f', 'src/x.cpp:421')"""
    if not loc:
        return "?", loc
    loc = loc.replace(prog.REPO.rstrip("/") + "/", "")
    if "(" not in loc:
        return loc, loc
    f, fn = loc.split(" (", 1)
    return f.rsplit(":", 1)[0] + ": " + (fn[:-1] if fn.endswith(")") else fn), f


class Out:
    """Result of one scenario."""

    def __init__(self):
        self.paths = 0
        self.steps = 0
        self.done = 0
        self.fails = []       # (where, what, detail, line)
        self.unsupported = {}
        self.covered = set()
        self.notes = {}
        self.data = []

    def merge(self, o):
        self.paths += o.paths
        self.steps += o.steps
        self.done += o.done
        for f in o.fails:
            if all(g[:2] != f[:2] for g in self.fails):
                self.fails.append(f)
        for k, v in o.unsupported.items():
            self.unsupported[k] = self.unsupported.get(k, 0) + v
        self.covered |= o.covered
        for k, v in o.notes.items():
            self.notes[k] = self.notes.get(k, 0) + v
        self.data += o.data


def explore(p, body, setup=None, max_paths=2000, deadline=None, ub=True):
    """body(I, st) raises Fail for a violation. UBEvents on exact paths are violations when `ub`."""
    out = Out()
    script = []
    while True:
        st = State(script)
        I = Interp(p, st)
        I.max_iter = 1000
        if setup:
            setup(I)
        out.paths += 1
        try:
            r = body(I, st)
            out.done += 1
            if r is not None:
                out.data.append(r)
        except Fail as e:
            if not st.feasible():
                out.done += 1
            elif st.taints:
                out.unsupported["imprecise: %s" % st.taints[0]] = out.unsupported.get("imprecise: %s" % st.taints[0], 0) + 1
            else:
                out.done += 1
                out.fails.append((e.where, e.what, e.detail, e.line))
        except UBEvent as e:
            if not st.feasible():
                out.done += 1
            elif ub and not st.taints:
                w, l = site(e.loc)
                out.done += 1
                out.fails.append((w, "undefined behaviour: " + e.msg, None, l))
            else:
                out.unsupported["ub"] = out.unsupported.get("ub", 0) + 1
        except CxxThrow as e:
            w, l = site(e.loc)
            out.unsupported["uncaught exception from %s" % w] = out.unsupported.get("uncaught exception from %s" % w, 0) + 1
        except PathEnd as e:
            if e.why == "infeasible":
                out.done += 1
            else:
                k = "cut: %s" % e.why
                out.unsupported[k] = out.unsupported.get(k, 0) + 1
        except (Unsupported, NoFork) as e:
            k = "unsupported: %s" % e
            out.unsupported[k] = out.unsupported.get(k, 0) + 1
        except RecursionError:
            out.unsupported["recursion"] = out.unsupported.get("recursion", 0) + 1
        except AnalysisBroken:
            raise
        except Exception as e:
            # a construct the models do not handle: this path is undecided
            if os.environ.get("SIMFIL_DEBUG"):
                traceback.print_exc()
            k = "internal: %s: %s" % (type(e).__name__, str(e)[:80])
            out.unsupported[k] = out.unsupported.get(k, 0) + 1
        out.steps += I.steps
        out.covered |= I.covered
        t = [(n, k) for n, k, l in st.trail]
        while t and t[-1][1] + 1 >= t[-1][0]:
            t.pop()
        if not t:
            return out
        script = [k for _, k in t[:-1]] + [t[-1][1] + 1]
        if out.paths >= max_paths or (deadline and time.time() > deadline):
            out.unsupported["path budget"] = out.unsupported.get("path budget", 0) + 1
            return out


_F = None
_J = None


def _job(i):
    return _F(_J[i])


def parallel(f, jobs, workers=None):
    """Runs f over jobs in forked workers (f may be a closure over the loaded program)."""
    global _F, _J
    _F, _J = f, jobs
    workers = workers or min(8, os.cpu_count() or 1)
    if len(jobs) <= 1 or workers == 1:
        return [f(j) for j in jobs]
    gc.collect()
    gc.freeze()         # the loaded program is never garbage: keep the collector of the workers away from it
    gc.set_threshold(50000, 20, 50)
    ctx = mp.get_context("fork")
    with ctx.Pool(workers) as pool:
        return pool.map(_job, range(len(jobs)), chunksize=1)
