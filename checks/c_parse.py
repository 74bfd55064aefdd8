"""P01-P05: parsing. The library's own compile() is interpreted on families of query texts; the trees it builds (as printed by
Expr::toString) are compared with those of equivalent texts whose grouping is spelled out by a reference grammar."""
import itertools
import os
import random
import re
import time
from engine import prog, lib, text as T
from engine.dom import *
from engine.interp import *
from .core import Result, AnalysisBroken
from .explore import *
from .c_expr import load, show, Scene, EW, EVAL, COMP, UNDEF, NULLV, I1, N1, exc_name, USER_ERRORS, strcell, internal
from .c_ops import pystr

COMPILE = "src/simfil.cpp: simfil::compile"


# ------------------------------------------------------------------ compiling texts

class Compiler:
    """One environment; every text is compiled in it."""

    def __init__(self, p, constants=()):
        self.p, self.constants = p, constants
        self.base = None
        self.memo = {}

    def world(self):
        if self.base is None:
            st = State([])
            I = Interp(self.p, st)
            I.max_iter = 1000
            W = EW(self.p, I, st)
            W.seqs = {k: [[UNDEF]] for k in range(4)}
            W.mode = {k: "unknown" for k in range(4)}
            W.env = W.call("env_new")
            for n, v in self.constants:
                W.call("env_constant", W.env, strcell(n), v)
            self.base = I, W
        return self.base

    def tree(self, text):
        """('ok', printed tree) or ('error', exception, where)"""
        if text in self.memo:
            return self.memo[text]
        I, W = self.world()
        I.covered = set()
        I.steps = 0
        I.st = st = State([])
        W.st = st
        try:
            x = W.call("env_compile", W.env, Cell(lib.SvObj(T.const(text.encode("latin-1")))), False, False)
            if W.num(Cell(W.call("e_null", x))):
                r = ("null", "", COMPILE)
            else:
                r = ("ok", pystr(W.I, W.call("e_string", x)), None)
        except CxxThrow as e:
            self.base = None
            r = ("error", exc_name(e), site(e.loc), internal(e))
        except BaseException:
            self.base = None
            raise
        if st.taints:
            self.base = None
            raise Unsupported("imprecise: %s" % st.taints[0])
        if len(st.trail):
            self.base = None
            raise Unsupported("compilation depends on a choice")
        self.cov = set(I.covered)
        self.memo[text] = r
        return r

    def parselets(self):
        out = []
        for i in self.cov:
            f = self.p.funcs.get(i)
            if f and re.search(r"Pars\w*(<.*>)?::parse\w*$", f["n"]) and f["f"].startswith(prog.REPO):
                n = f["n"].replace("simfil::", "")
                if not n.startswith("Parser::"):
                    out.append(n)
        return ", ".join(sorted(set(out)))


# ------------------------------------------------------------------ P01: reference grammar

LEVEL = {}
for ops, l in (("* / %", 6), ("+ -", 5), ("<< >> & | ^", 4), ("< <= > >=", 3), ("== = !=", 2), ("and or", 1)):
    for o in ops.split():
        LEVEL[o] = l
BIN = list(LEVEL)
REPS = ["*", "+", "<<", "<", "==", "and", "or"]
PRE = ["-", "not", "~", "#", "typeof"]
# postfix constructs: level
POST = {"?": 9, "...": 9, "as int": 7, "as string": 7, "[ x ]": 10, "{ x }": 11, ". x": 12, ". s ( )": 12, "[ s ( ) ]": 10}
POSTQ = ["?", "...", "as int", "[ x ]", "{ x }", ". x"]


class Ref:
    """Grouping by the precedence table of the language guide. Items: ('atom', t) ('pre', t) ('post', t) ('bin', t)."""

    def __init__(self, items):
        self.items, self.i = items, 0

    def parse(self, lvl=0):
        k, t = self.items[self.i]
        self.i += 1
        left = ("pre", t, self.parse(8)) if k == "pre" else ("atom", t)
        while self.i < len(self.items):
            k, t = self.items[self.i]
            l = LEVEL[t] if k == "bin" else POST[t]
            if l <= lvl:
                break
            self.i += 1
            left = ("post", t, left) if k == "post" else ("bin", t, left, self.parse(l))
        return left


def spelled(t):
    if t[0] == "atom":
        return t[1]
    if t[0] == "pre":
        return "( %s %s )" % (t[1], spelled(t[2]))
    if t[0] == "post":
        return "( %s %s )" % (spelled(t[2]), t[1])
    return "( %s %s %s )" % (spelled(t[2]), t[1], spelled(t[3]))


def flat(items):
    return " ".join(t for _, t in items)


ATOMS = ["a", "b", "c", "d", "e"]
CALLS = ["p ( )", "q ( )", "r ( )", "s ( )", "p ( b )"]


def mk(*spec, atoms=ATOMS):
    """spec: items; the operands are filled in."""
    out, n = [], 0
    for k, t in spec:
        if k == "atom":
            t, n = atoms[n % len(atoms)], n + 1
        out.append((k, t))
    return out


A = ("atom", None)


def families(tier):
    fam = {}
    B = lambda o: ("bin", o)
    pre = lambda o: ("pre", o)
    post = lambda o: ("post", o)
    fam["pairs of binary operators"] = [mk(A, B(x), A, B(y), A) for x in BIN for y in BIN]
    fam["operators between calls"] = ([mk(A, B(x), A, B(y), A, atoms=CALLS) for x in REPS for y in REPS] + [mk(pre(x), A, B(y), A, atoms=CALLS) for x in PRE for y in REPS[:3]] +
                                      [mk(A, B(y), A, post(x), atoms=CALLS) for x in POSTQ for y in REPS[:3]])
    tri = BIN if tier == "thorough" else REPS
    fam["triples of binary operators"] = [mk(A, B(x), A, B(y), A, B(z), A) for x in tri for y in tri for z in tri]
    fam["prefix and binary operators"] = [mk(*s) for x in PRE for y in BIN for s in
                                          ((pre(x), A, B(y), A), (A, B(y), pre(x), A), (A, B(y), pre(x), A, B(y), A))]
    fam["postfix and binary operators"] = [mk(*s) for x in POST for y in BIN for s in
                                           ((A, post(x), B(y), A), (A, B(y), A, post(x)), (A, B(y), A, post(x), B(y), A))]
    fam["prefix and postfix operators"] = ([mk(pre(x), A, post(y)) for x in PRE for y in POST] +
                                           [mk(pre(x), pre(y), A) for x in PRE for y in PRE] +
                                           [mk(pre(x), A, post(y), post(z)) for x in ("-", "not") for y in POSTQ for z in POSTQ])
    fam["chains of postfix operators"] = ([mk(A, post(x), post(y)) for x in POST for y in POST] +
                                          [mk(A, post(x), post(y), post(z)) for x in POSTQ for y in POSTQ for z in POSTQ])
    R = ["*", "+", "<<", "<", "==", "and"]
    R2 = R if tier == "thorough" else ["+", "==", "and"]
    fam["mixed operators"] = ([mk(A, B(x), A, post(y), B(z), A) for x in R for y in POSTQ for z in R] +
                              [mk(A, B(x), pre("-"), A, post(y), B(z), A) for x in R2 for y in POSTQ for z in R2] +
                              [mk(pre("not"), A, post(y), B(z), A, B(x), A) for x in R2 for y in POSTQ for z in R2] +
                              [mk(A, post(y), B(x), A, post(z)) for x in R2 for y in POSTQ for z in POSTQ] +
                              [mk(A, B(x), A, post(y), post(z), B(w), A) for x in R2[:2] for w in R2[1:] for y in POSTQ for z in POSTQ])
    if tier == "thorough":
        fam["four binary operators"] = [mk(A, B(w), A, B(x), A, B(y), A, B(z), A) for w in REPS for x in REPS for y in REPS for z in REPS]
        fam["postfix chains inside operators"] = [mk(A, B(x), pre(w), A, post(y), post(z), B(v), A) for x in R for v in R for w in ("-", "not") for y in POSTQ for z in POSTQ]
    return fam


def other(t):
    """A different grouping of the same items, to show that printed trees tell groupings apart."""
    if t[0] == "bin" and t[2][0] == "bin":
        return ("bin", t[2][1], t[2][2], ("bin", t[1], t[2][3], t[3]))
    if t[0] == "bin" and t[3][0] == "bin":
        return ("bin", t[3][1], ("bin", t[1], t[2], t[3][2]), t[3][3])
    if t[0] == "post" and t[2][0] in ("pre", "bin"):
        return t[2][:-1] + (("post", t[1], t[2][-1]),)
    if t[0] in ("pre", "bin") and t[-1][0] == "post":
        return ("post", t[-1][1], t[:-1] + (t[-1][2],))
    return None


def p01_body(p, name, texts):
    def go(I, st):
        C = Compiler(p)
        I.covered |= set()
        told = 0
        for items in texts:
            ref = Ref(items).parse()
            text = flat(items)
            full = re.sub(r"^\( (.*) \)$", r"\1", spelled(ref))
            a = C.tree(text)
            pa = C.parselets()
            b = C.tree(full)
            I.covered |= C.cov
            if a[:2] != b[:2]:
                ops = sorted({t.split(" ")[0] for k, t in items if k != "atom"})
                d = {"expression": text, "documented grouping": full, "tree": a[1], "documented tree": b[1], "parselets": pa}
                raise Fail(COMPILE, "operators %s do not bind as the guide's table says" % " ".join("`%s`" % o for o in ops), d)
            o = other(ref)
            if o is not None and C.tree(spelled(o))[1] != a[1]:
                told += 1
        return (name, len(texts), told)
    return go


def chunks(xs, n):
    return [xs[i:i + n] for i in range(0, len(xs), n)]


def jobs_p01(p, tier):
    J = []
    for name, texts in families(tier).items():
        seen = set()
        u = [t for t in texts if not (flat(t) in seen or seen.add(flat(t)))]
        for c in chunks(u, 25):
            J.append((name, p01_body(p, name, c)))
    return J


# ------------------------------------------------------------------ P02: everything is consumed, brackets match

PAIR = {")": "(", "]": "[", "}": "{"}


def structure(tokens):
    """None when brackets match and commas separate arguments of a call; else what is wrong."""
    stack = []
    for i, t in enumerate(tokens):
        if t in "([{":
            call = t == "(" and i > 0 and re.match(r"[a-z]\w*$", tokens[i - 1]) is not None and tokens[i - 1] not in WORDS
            stack.append((t, call))
        elif t in PAIR:
            if not stack or stack[-1][0] != PAIR[t]:
                return "the closing `%s` has no matching opening bracket" % t
            if tokens[i - 1] == ",":
                return "the list argument before `%s` is missing" % t
            stack.pop()
        elif t == ",":
            if not stack or not stack[-1][1]:
                return "a comma outside the argument list of a call is accepted"
            if tokens[i - 1] in ("(", ","):
                return "the list argument before `,` is missing"
    if stack:
        return "the opening `%s` is never closed" % stack[-1][0]
    return None


WORDS = {"and", "or", "not", "as", "typeof", "true", "false", "null", "int", "string"}


def named(tokens):
    """Words numbered by position of appearance, so that each can be found in the tree; functions are ones that exist."""
    out, n = [], 0
    for i, t in enumerate(tokens):
        if t == "w":
            if tokens[i + 1:i + 2] == ["("]:
                t = "p"
            else:
                t, n = "w%d" % n, n + 1
        out.append(t)
    return out


def p02_body(p, seqs):
    def go(I, st):
        C = Compiler(p)
        acc = 0
        for s in seqs:
            toks = named(s)
            text = " ".join(toks)
            r = C.tree(text)
            cov = C.cov if r[0] == "ok" else set()
            if r[0] == "ok":
                I.covered |= cov
            d = {"text": text, "tree": r[1]}
            if r[0] == "null":
                raise Fail(COMPILE, "compiling returns no expression and raises no error", d)
            if r[0] == "error":
                if r[3] or r[1] not in USER_ERRORS:
                    raise Fail(r[2][0], "malformed text ends in an internal error (%s)" % r[1], d, r[2][1])
                continue
            acc += 1
            d["parselets"] = C.parselets()
            bad = structure(toks)
            if bad:
                raise Fail(COMPILE, "text is accepted although " + bad if not bad.startswith("a comma") else bad, d)
            for t in toks:
                if re.match(r"w\d+$", t) and len(re.findall(r"(?<!\w)%s(?!\w)" % t, r[1])) != 1:
                    raise Fail(COMPILE, "an accepted text's operand does not appear in the expression once", d)
            for i, t in enumerate(toks):
                if re.match(r"\w+$", t):
                    continue        # a word before or after another one is an operator
                q = C.tree(" ".join(toks[:i] + toks[i + 1:]))
                if q[0] == "ok" and q[1] == r[1]:
                    d["same expression without"] = t
                    raise Fail(COMPILE, "a token of an accepted text has no effect: it was skipped", d)
        return ("texts", len(seqs), acc)
    return go


ALPHA = ["w", "(", ")", "[", "]", "{", "}", ",", "+", "?", ".", "not"]


def sentences(rng, n):
    """Sentences of the grammar, as token lists."""
    def expr(d):
        k = rng.randrange(12) if d > 0 else rng.randrange(3)
        if k < 2:
            return ["w"]
        if k == 2:
            return ["w", "(", ")"]
        if k == 3:
            return ["("] + expr(d - 1) + [")"]
        if k == 4:
            return ["w", "["] + expr(d - 1) + ["]"]
        if k == 5:
            return ["w", "{"] + expr(d - 1) + ["}"]
        if k == 6:
            return ["w", "("] + expr(d - 1) + [",", ] + expr(d - 1) + [")"]
        if k == 7:
            return ["w", ".", "w"]
        if k == 8:
            return expr(d - 1) + ["?"]
        if k == 9:
            return ["not"] + expr(d - 1)
        if k == 10:
            return expr(d - 1) + [rng.choice(["+", "and", "==", "*"])] + expr(d - 1)
        return ["w", ".", rng.choice(["(", "[", "{"])] + expr(d - 1) + ["?"]
    close = {"(": ")", "[": "]", "{": "}"}
    out, seen = [], set()
    while len(out) < n:
        e = expr(2)
        st = []
        f = []
        for t in e:                 # complete the open bracket of the last form
            f.append(t)
        bal = []
        for t in f:
            if t in close:
                bal.append(close[t])
            elif t in PAIR:
                bal.pop()
        f += reversed(bal)
        k = tuple(f)
        if len(f) <= 12 and k not in seen:
            seen.add(k)
            out.append(f)
    return out


def mutants(s, repl):
    yield s
    for i in range(len(s) + 1):
        for t in repl:
            yield s[:i] + [t] + s[i:]
    for i in range(len(s)):
        yield s[:i] + s[i + 1:]
        for t in repl:
            if t != s[i]:
                yield s[:i] + [t] + s[i + 1:]
        if i + 1 < len(s) and s[i] != s[i + 1]:
            yield s[:i] + [s[i + 1], s[i]] + s[i + 2:]


CORE = ["w ( w )", "w ( w , w )", "w ( w , w , w )", "w . w ( w , w )", "w [ w ]", "w { w }", "( w )", "w . w", "w . ( w )", "w . { w }", "w . [ w ]", "w as int", "w as int [ w ]", "w + w", "w ? + w",
        "w ... . w", "w ( w ( w , w ) , w )", "w ( ( w ) , [ w ] )", "( w , w )", "[ w , w ]", "w { w ( w ) }"]


def jobs_p02(p, tier):
    J = []
    small = [list(x) for n in range(0, 5 if tier == "thorough" else 4) for x in itertools.product(ALPHA, repeat=n)]
    rng = random.Random(7)
    seen = {tuple(x) for x in small}
    long = []
    for s in [c.split() for c in CORE] + sentences(rng, 200 if tier == "thorough" else 45):
        for m in mutants(s, ["(", ")", "]", "}", ",", "w"] if tier == "thorough" else [")", "]", ",", "w"]):
            if tuple(m) not in seen:
                seen.add(tuple(m))
                long.append(m)
    for c in chunks(small, 60) + chunks(long, 40):
        J.append(("texts", p02_body(p, c)))
    J.append(("flags", p02_flags(p)))
    return J


def p02_flags(p):
    """The variants of compile(): wrapped in any(), single values expanded to a wildcard comparison."""
    def go(I, st):
        for any_, wild in ((True, False), (False, True), (True, True)):
            for text in ("a", "1", "'x'", "a +", "a )", "a , b", "( a", "a ]", "a }", "", "1 2", "1 )", "1 ,", "'x' )", "true ]"):
                W = EW(p, I, st)
                W.seqs = {k: [[UNDEF]] for k in range(4)}
                W.mode = {k: "unknown" for k in range(4)}
                W.env = W.call("env_new")
                try:
                    W.call("env_compile", W.env, Cell(lib.SvObj(T.const(text.encode()))), any_, wild)
                except CxxThrow as e:
                    if internal(e) or exc_name(e) not in USER_ERRORS:
                        w, l = site(e.loc)
                        raise Fail(w, "malformed text ends in an internal error (%s)" % exc_name(e), {"text": text}, l)
                    continue
                if text not in ("a", "1", "'x'"):
                    raise Fail(COMPILE, "text is accepted although it is not a complete expression", {"text": text, "any": any_, "wildcard": wild})
        return ("flags", 45, 9)
    return go


# ------------------------------------------------------------------ P03: path context

# (text with a hole, the hole is: out = outside a path, left = left of a path operator, in = right of one)
CTX = [
    ("@", "out"), ("( @ )", "out"), ("a [ @ ]", "out"), ("a { @ }", "out"), ("p ( @ )", "out"), ("p ( a . b , @ )", "out"), ("p ( @ , a . b )", "out"),
    ("a . b [ @ ]", "out"), ("a . b { @ }", "out"), ("a . ( @ )", "out"), ("a . p ( @ )", "out"), ("a . p ( b . c , @ )", "out"), ("a . { @ }", "out"), ("a . [ @ ]", "out"),
    ("[ @ ]", "out"), ("{ @ }", "out"),
    ("@ + a", "out"), ("a + @", "out"), ("a . b + @", "out"), ("a . ( b ) == @", "out"), ("a . b [ c ] and @", "out"), ("a . p ( b ) == @", "out"),
    ("a . b { c } + @", "out"), ("a . { c } + @", "out"), ("a . [ c ] + @", "out"), ("not @", "out"), ("a . p ( ) + @", "out"), ("@ and a . b", "out"), ("a . ( b . c ) . d + @", "out"),
    ("a . p ( b . c ) . d + @", "out"), ("a . b . c == @", "out"), ("a . b ? + @", "out"), ("a . b as int + @", "out"),
    ("( a . b ) + @", "out"), ("p ( a . b ) + @", "out"), ("c [ a . b ] + @", "out"), ("c { a . b } + @", "out"),
    ("a . @", "in"), ("a . @ . b", "in"), ("a [ b ] . @", "in"), ("a { b } . @", "in"), ("( a ) . @", "in"), ("a . ( b ) . @", "in"), ("a . p ( b ) . @", "in"),
    ("a . b [ c ] . @", "in"), ("a . b { c } . @", "in"), ("a . { c } . @", "in"), ("a . [ c ] . @", "in"), ("_ . @", "in"), ("* . @", "in"), ("** . @", "in"), ("a ? . @", "in"),
    ("a . @ + b", "in"), ("a . @ [ b ]", "in"), ("a . @ { b }", "in"), ("p ( ) . @", "in"), ("a . p ( ) . @", "in"),
    ("@ . a", "left"), ("@ . a . b", "left"), ("@ . ( a )", "left"), ("@ . p ( )", "left"), ("@ . a + b", "left"), ("@ . [ a ]", "left"),
]
SYMS = ["ABC", "A_B", "A1"]
CONST = ("cc", 7)


def p03_body(p, pairs):
    def go(I, st):
        C = Compiler(p, (CONST, ("CD", 8)))
        for text, kind in pairs:
            nested = text.count("@") == 1 and (text, kind) not in CTX
            for sym in SYMS[:1] if nested else SYMS:
                got = C.tree(text.replace("@", sym))
                par = C.parselets() if got[0] == "ok" else ""
                I.covered |= C.cov
                if kind == "out":
                    want = C.tree(text.replace("@", "'%s'" % sym))
                else:
                    low = C.tree(text.replace("@", "zz"))
                    want = low[:1] + (re.sub(r"\bzz\b", sym, low[1]),) + low[2:]
                if got[:2] != want[:2]:
                    raise Fail(COMPILE, "an upper-case word %s is not taken as %s" % (
                        {"out": "outside a path", "in": "right of a path operator", "left": "left of a path operator"}[kind],
                        "a string" if kind == "out" else "a field"),
                        {"text": text.replace("@", sym), "tree": got[1], "expected": want[1], "parselets": par})
            if kind == "left":
                continue
            got = C.tree(text.replace("@", CONST[0]))
            if kind == "out":
                want = C.tree(text.replace("@", str(CONST[1])))
            else:
                low = C.tree(text.replace("@", "zz"))
                want = low[:1] + (re.sub(r"\bzz\b", CONST[0], low[1]),) + low[2:]
            if got[:2] != want[:2]:
                raise Fail(COMPILE, "the name of a constant %s is not taken as %s" % (
                    "outside a path" if kind == "out" else "right of a path operator", "the constant" if kind == "out" else "a field"),
                    {"text": text.replace("@", CONST[0]), "tree": got[1], "expected": want[1]})
            if nested:
                continue
            # a word in mixed or lower case is a field everywhere
            for w in ("Abc", "aBC", "_b"):
                got, low = C.tree(text.replace("@", w)), C.tree(text.replace("@", "zz"))
                if got[1] != re.sub(r"\bzz\b", w, low[1]):
                    raise Fail(COMPILE, "a word that is not all upper-case is not taken as a field", {"text": text.replace("@", w), "tree": got[1]})
        return ("contexts", len(pairs), len(pairs))
    return go


def jobs_p03(p, tier):
    one = list(CTX)
    two = [(o.replace("@", "( %s )" % i if k != "out" else i), kk) for o, k in CTX for i, kk in CTX if k == "out" and o != "@"]
    # an inner text without brackets of its own may be regrouped by the outer operators: bracket it
    two = []
    for o, k in CTX:
        if k != "out" or o in ("@",):
            continue
        for i, kk in CTX:
            if i == "@":
                continue
            two.append((o.replace("@", "( %s )" % i), kk))
            if re.search(r"[\[({,] @ [\])},]", o):
                two.append((o.replace("@", i), kk))
    if tier != "thorough":
        rng = random.Random(3)
        two = rng.sample(two, 500)
    J = [("contexts", p03_body(p, c)) for c in chunks(one, 4)]
    J += [("nested contexts", p03_body(p, c)) for c in chunks(two, 20)]
    return J


# ------------------------------------------------------------------ P04: functions by name

def documented():
    f = os.path.join(prog.REPO, "simfil-language.md")
    out = []
    if os.path.exists(f):
        out = re.findall(r"^###\s+`(\w+)\s*\(", open(f, encoding="utf-8", errors="replace").read(), re.M)
    return sorted(set(out) | {"any", "each", "all", "count"})


ALIAS = {"all": "each"}
ENVNEW = "src/environment.cpp: simfil::Environment::Environment"
FIND = "src/environment.cpp: simfil::Environment::findFunction"


def spellings(n):
    mix = "".join(c.upper() if i % 2 else c for i, c in enumerate(n))
    mix2 = "".join(c if i % 2 else c.upper() for i, c in enumerate(n))
    return [n, n.upper(), mix, mix2, n.capitalize(), n[:-1] + n[-1].upper()]


def table(p, I, st):
    W = EW(p, I, st)
    W.seqs = {k: [[UNDEF]] for k in range(4)}
    W.mode = {k: "unknown" for k in range(4)}
    W.env = W.call("env_new")
    n = W.num(Cell(W.call("env_fn_count", W.env)))
    fns = {}
    for i in range(n):
        k = pystr(I, W.call("env_fn_key", W.env, i))
        f = W.call("env_fn_at", W.env, i)
        if k in "pqrs":
            continue
        fns[k] = f
    return W, fns


def same(a, b):
    return isinstance(a, Ptr) and isinstance(b, Ptr) and a.c is b.c


def p04_table(p):
    def go(I, st):
        W, fns = table(p, I, st)
        idents = {}
        for k, f in fns.items():
            if not isinstance(f, Ptr):
                raise Fail(ENVNEW, "the name `%s` is registered without a function" % k)
            n = pystr(I, W.call("fn_name", f))
            if ALIAS.get(k, k) != n:
                raise Fail(ENVNEW, "the function `%s` is registered as `%s`" % (n, k))
            if n in idents and not same(idents[n], f):
                raise Fail(ENVNEW, "two functions report the name `%s`" % n)
            idents[n] = f
        for d in documented():
            if d not in fns:
                raise Fail(ENVNEW, "the documented function `%s` is not registered under its name" % d)
        for k, f in fns.items():
            for v in spellings(k):
                g = W.call("env_find", W.env, strcell(v))
                if not same(f, g):
                    raise Fail(FIND, "looking up `%s` does not find the function `%s`" % (v, k), {"name": v})
        for k in list(fns) + ["x", ""]:
            for v in (k[:-1], k + "x", k + "_", "x" + k, k[1:], k + "\0", " " + k, k[::-1]):
                if v.lower() in fns or v.lower() in ("p", "q", "r", "s"):
                    continue
                g = W.call("env_find", W.env, strcell(v))
                if isinstance(g, Ptr) and g.c is not None and g is not NULL:
                    raise Fail(FIND, "looking up `%s`, which is no function, finds one" % v, {"name": v})
        return ("names", len(fns), len(fns))
    return go


ARGS = {"re": "'a'", "range": "1, 2", "split": "'a,b', ','", "select": "p(), 0", "keys": "_", "sum": "p()", "trace": "p()", "arr": "p(), q()"}


def p04_call(p, n, v):
    """Calling under another letter case delivers the same values."""
    def go(I, st):
        outs = []
        for name in (n, v):
            sc = Scene(p, None, text="%s(%s)" % (name, ARGS.get(n, "p()")))
            s2 = State([])
            J = Interp(p, s2)
            J.max_iter = 1000
            try:
                W = sc.attach(J, s2)
                W.seqs = {k: [[("int", 3), ("str", "a")]] for k in range(4)}
                W.mode = {k: "unknown" for k in range(4)}
                W.shape = {1: ("object", None, [("a", 2), ("b", 3)]), 2: ("int", ("int", 1), []), 3: ("int", ("int", 2), [])}
                W.phase, W.stops = EVAL, False
                r = W.num(Cell(W.call("e_eval", W.env, W.x, EVAL, W.make(N1))))
                outs.append(("ok", r, list(W.out)))
            except CxxThrow as e:
                outs.append(("error", exc_name(e), site(e.loc)))
            if s2.taints or s2.trail:
                raise Unsupported("imprecise")
        a, b = outs
        if a[:2] != b[:2] or (a[0] == "ok" and [x[:1] if x[0] == "re" else x for x in a[2]] != [x[:1] if x[0] == "re" else x for x in b[2]]):
            raise Fail("src/simfil.cpp: simfil::CallExpression::ieval", "calling `%s` does not do what calling `%s` does" % (v, n), {"call": v, "got": str(b), "expected": str(a)})
        return ("calls", 1, 1)
    return go


def jobs_p04(p, tier):
    J = [("names", p04_table(p))]
    for n in documented():
        for v in spellings(n)[1:] if tier == "thorough" else spellings(n)[1:3]:
            J.append(("call %s" % v, p04_call(p, n, v)))
    return J


# ------------------------------------------------------------------ P05: query options and entry points

CONSTS = ["1", "-1", "1.5", "'a'", "true", "false", "null", "AB", "kk", "1 + 2", "'a' + 'b'", "1 == 1", "(1)", "1 as string", "not true", "#'ab'", "typeof 1",
          "range(1, 3)", "arr(1, 2)", "arr('a', 'b') == 'a'", "1 and 2", "null or 3", "1?", "any(1, 2)", "re'a'", "range(1,3)...", "A_1", "KK", "'*'", "0xff",
          "count(1, null)", "arr(1, 2) + 1", "split('a,b', ',')", "1 as null", "null as int"]
QUERIES = ["a", "_", "*", "**", "a.b", "a.AB", "AB.a", "kk.a", "a == 1", "1 == a", "a + kk", "[0]", "a[0]", "a{b}", "{b}", "p()", "p() == 1", "-a", "not a", "#a", "a?", "a...", "a as int",
           "any(a)", "each(a == 1)", "count(a)", "a and b", "1 and a", "true and a", "false or a", "arr(1, a)", "range(a, 3)", "a.*", "a.**", "*.a", "**.a == 1", "** == 1", "(a)",
           "keys(a)", "trace(a)", "sum(a)", "split(a, ',')", "re'a' == a", "a =~ re'b'", "p(), ", "any()", "(1", "1)", "1 2", "", "a b", "1 +", "a.", ".a", "unknown(1)", "a as foo", "arr(1, a).b",
           "a.b.c == 'x' and _.d{e > 3}", "a{ b == 1 and kk }", "typeof a", "a == AB", "p().a", "1.a", "'x'.y", "null.a", "1{a}", "1[a]", "null[a]", "(a + 1) * 2", "a + 1 * 2", "a == 1 or b == 2"]


def options_body(p, texts):
    C = Compiler(p, (("kk", 7),))

    def tree(text, any, wild, fn="env_compile"):
        I, W = C.world()
        I.covered, I.steps = set(), 0
        I.st = W.st = st = State([])
        try:
            a = [W.env, Cell(lib.SvObj(T.const(text.encode("latin-1"))))]
            x = W.call(fn, *(a + ([any] if fn != "q_compile" else []) + ([wild] if fn == "env_compile" else [])))
            if W.num(Cell(W.call("e_null", x))):
                return ("null", "")
            return ("ok", pystr(W.I, W.call("e_string", x)))
        except CxxThrow as e:
            C.base = None
            if exc_name(e) not in USER_ERRORS:
                raise Fail(site(e.loc)[0], "compiling a query ends in an internal error (%s)" % exc_name(e), {"text": text, "any": any, "autoWildcard": wild})
            return ("error", "")
        except BaseException:
            C.base = None
            raise
        finally:
            if st.taints or st.trail:
                C.base = None
                raise Unsupported("imprecise")

    def go(I, st):
        n = 0
        for q in texts:
            const = q in CONSTS
            got = {(a, w): tree(q, a, w) for a in (False, True) for w in (False, True)}
            d = {"text": q}
            if any(g[0] == "null" for g in got.values()):
                raise Fail(COMPILE, "compiling a text delivers no expression and no error", d)
            if len({g[0] for g in got.values()}) > 1:
                raise Fail(COMPILE, "whether a text is accepted depends on the options", dict(d, got=str(got)))
            if got[0, 0][0] == "error":
                n += 1
                continue
            b = "(%s)" % q
            x = "** == " + b if const else b
            want = {(False, False): tree(b, False, False), (True, False): tree("any(%s)" % q, False, False),
                    (False, True): tree(x, False, False), (True, True): tree("any(%s)" % (x if const else q), False, False)}
            for (a, w), g in got.items():
                if g != want[a, w]:
                    raise Fail(COMPILE, "the option%s" % (
                        "s any and autoWildcard do" if a and w else " any does" if a else " autoWildcard does" if w else "s change a query although neither does") +
                        (" not wrap the query as documented" if a or w else ""), dict(d, any=a, autoWildcard=w, tree=g[1], expected=want[a, w][1]))
            if tree(q, True, False, "q_compile") != got[True, False] or any(tree(q, v, False, "q_compile_any") != got[v, False] for v in (True, False)):
                raise Fail("include/simfil/simfil.h: simfil::compile", "compiling without options does not mean any=true, autoWildcard=false", d)
            n += 1
        return ("options", len(texts), n)
    return go


EV = [[], [("int", 1)], [NULLV], [("bool", 0)], [("str", "a"), ("int", 2)], [("int", 1), NULLV, ("int", 1)], [N1], [("node", 2), ("str", ""), ("node", 2)], [("range", 1, 3), ("bool", 1)],
      [("bool", 0), ("bool", 0), ("bool", 1), ("int", 0)]]
EVQ = ["p()", "any(p())", "p() + 1", "_", "*", "a", "arr(p(), q())", "p() == q()", "p() and q()", "trace(p())", "count(p())", "not p()", "_{p()}", "1", "arr(1, 2)"]


def entry_body(p, text, any):
    def go(I, st):
        sc = Scene(p, None, text=text, any=any)
        W = sc.attach(I, st)
        W.seqs = {0: EV, 1: [[], [("int", 3)], [NULLV, ("str", "b")]], 2: [[]], 3: [[]]}
        W.mode = {k: "unknown" for k in range(4)}
        W.shape = {1: ("object", None, [2, 3]), 2: ("int", 1, []), 3: ("string", "x", [])}
        where = "src/simfil.cpp: simfil::eval"
        outs = []
        for k in (0, 1):
            W.phase, W.stops, W.out, W.answers, W.evals, W.active = EVAL, False, [], [], [], []
            try:
                if k == 0:
                    W.call("e_eval", W.env, W.x, EVAL, W.make(N1))
                    outs.append(("ok", list(W.out), list(W.evals)))
                else:
                    v = W.call("q_eval", W.env, W.x, W.model, 1)
                    n = W.num(Cell(W.call("q_size", v)))
                    if n > 40:
                        raise Fail(where, "more values are returned than the query delivers", {"query": text})
                    outs.append(("ok", [W.describe(c if isinstance(c, Cell) else Cell(c)) for c in (W.call("q_at", v, i) for i in range(n))], list(W.evals)))
            except CxxThrow as e:
                outs.append(("error", exc_name(e)))
        a, b = outs
        d = {"query": text, "delivered": str(a[1:2]), "returned": str(b[1:2])}
        if a[0] != b[0]:
            raise Fail(where, "eval does not end like the evaluation of the query", d)
        if a[0] == "ok" and a[1] != b[1]:
            raise Fail(where, "eval does not return exactly the values the query delivers, in order", d)
        if a[0] == "ok" and a[2] != b[2]:
            raise Fail(where, "eval does not evaluate the query once on the given node", dict(d, evaluations=str(b[2])))
        return ("entry", 1, 1)
    return go


def detached_body(p, text):
    def go(I, st):
        W = Scene(p, None, text=text).attach(I, st)
        W.seqs = {k: [[("int", 1)]] for k in range(4)}
        W.mode = {k: "unknown" for k in range(4)}
        W.shape = {1: ("object", None, [])}
        W.phase, W.stops = EVAL, False
        try:
            W.call("q_eval_detached", W.env, W.x)
        except CxxThrow as e:
            if exc_name(e) not in USER_ERRORS:
                raise Fail(site(e.loc)[0], "evaluating on a node without a model ends in an internal error (%s)" % exc_name(e))
            return ("entry", 1, 1)
        raise Fail("src/simfil.cpp: simfil::eval", "a node without a model is accepted", {"query": text})
    return go


def jobs_p05(p, tier):
    J = [("options", options_body(p, c)) for c in chunks(CONSTS + QUERIES, 4)]
    J += [("entry", entry_body(p, t, a)) for t in EVQ for a in (False, True)]
    J += [("entry", detached_body(p, t)) for t in ("p()", "a", "1", "**")]
    return J


EXPL = {
    "P01": "every pair, and every listed triple and mix, of binary, prefix and postfix operators, without brackets: the tree equals the one of the text whose grouping is spelled out by the table of the guide",
    "P02": "every sequence of up to 3 (thorough: 4) tokens over words, brackets, comma, operators, and every single-token edit of longer sentences: an accepted text has matching brackets, "
           "commas only between the arguments of a call, every operand in the tree, and no token without effect; every other text ends in a reported error",
    "P03": "every context of a word inside and outside of paths, nested: an all upper-case word is a string and the name of a constant is the constant exactly outside a path, a field otherwise",
    "P04": "the function table of a new environment: names, documented functions, lookup under other letter cases, prefixes and extensions; calls by other letter cases",
    "P05": "every listed query (constants of every form, folded expressions, model-dependent queries, texts in error) under every combination of the options any and autoWildcard: the tree equals the one of the "
           "query written out; simfil::eval against the values the expression delivers to a consumer, for sequences of values of every kind; nodes without a model",
}
JOBS = {"P01": jobs_p01, "P02": jobs_p02, "P03": jobs_p03, "P04": jobs_p04, "P05": jobs_p05}


def check(pid, tier):
    from .c_values import run
    p = load()
    deadline = time.time() + (420 if tier == "quick" else 800)
    r = run(p, pid, JOBS[pid](p, tier), deadline, EXPL[pid], n=64)
    r.coverage.update(count(pid, r))
    return r


def count(pid, r):
    n = {}
    for name, a, b in r.data:
        x, y = n.get(name, (0, 0))
        n[name] = (x + a, y + b)
    k = {"P01": "grouping told apart from another one", "P02": "accepted", "P03": "judged", "P04": "judged", "P05": "judged"}[pid]
    return {"texts": {m: {"analysed": x, k: y} for m, (x, y) in sorted(n.items())}}
