"""What every check shares: results, known findings, evidence, exit codes."""
import json
import os
import sys
import time
import traceback
from engine import prog

VERIF = prog.VERIF
KNOWN = os.path.join(VERIF, "known_findings.txt")


class AnalysisBroken(Exception):
    """The analysis cannot see its subject any more (anchor vanished, nothing analysed)."""


class Finding:
    """A violation: where (file, function), what, and the data that makes it reproducible."""

    def __init__(self, where, what, detail=None, line=None):
        self.where = where          # "src/token.cpp: simfil::tokenize" -- no line numbers, identifies the site
        self.what = what
        self.detail = detail
        self.line = line

    def key(self):
        return "%s | %s" % (self.where, self.what)


class Result:
    def __init__(self):
        self.findings = []
        self.coverage = {}
        self.assumptions = []
        self.notes = []
        self.level = "other"

    def add(self, where, what, detail=None, line=None):
        f = Finding(where, what, detail, line)
        if all(x.key() != f.key() for x in self.findings):
            self.findings.append(f)


def known(pid):
    """Entries `known: property=ID <key>`; entries starting with `fixed:` suppress nothing."""
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            pre = "known: property=%s " % pid
            if l.startswith(pre):
                out.append(l[len(pre):].strip())
    return out


def main(registry):
    if len(sys.argv) < 2 or sys.argv[1] not in registry:
        print("usage: check.py PROPERTY [--tier quick|thorough]")
        return 2
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    try:
        res = registry[pid](pid, tier)
    except AnalysisBroken as e:
        print("ANALYSIS-BROKEN property=%s %s" % (pid, e))
        return 2
    except prog.BuildFailed as e:
        print("ANALYSIS-BROKEN property=%s the source does not compile: %s" % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-BROKEN property=%s internal error" % pid)
        return 2
    wall = time.time() - t0
    kn = known(pid)
    new, old = [], []
    for f in res.findings:
        (old if f.key() in kn else new).append(f)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    cov = dict(res.coverage)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": res.level, "coverage": cov, "wall_s": round(wall, 2),
          "assumptions": res.assumptions, "violations": len(new),
          "findings": [{"where": f.where, "what": f.what, "line": f.line, "known": f in old} for f in res.findings]}
    if res.notes:
        ev["notes"] = res.notes
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as o:
        json.dump(ev, o, indent=1, default=str)
    for n in res.notes:
        print("note property=%s %s" % (pid, n))
    for f in old:
        print("KNOWN-FINDING: property=%s %s" % (pid, f.key()))
    if not new:
        print("OK property=%s (%s)" % (pid, cov.get("summary", "no violation")))
        return 0
    d = os.path.join(VERIF, "build", "replay")
    os.makedirs(d, exist_ok=True)
    for i, f in enumerate(new[:20]):
        path = os.path.join(d, "%s-%d.json" % (pid, i))
        with open(path, "w") as o:
            json.dump({"property": pid, "where": f.where, "line": f.line, "what": f.what, "detail": f.detail,
                       "rerun": "python3 /verif/check.py %s --tier %s" % (pid, tier)}, o, indent=1, default=str)
        print("%s: %s [%s]%s" % (f.line or f.where, f.what, f.where, (" e.g. " + str(f.detail)[:300]) if f.detail else ""))
        print("VIOLATION property=%s replay=%s" % (pid, path))
    return 1
