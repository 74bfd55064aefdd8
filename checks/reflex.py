"""Reference lexer of the language, written from the language guide: an automaton over the same abstract
tape the analysed tokenizer reads.  It decides its own character classes by refining the tape's domains."""
from engine.dom import *
from engine import text as T


def M(s):
    m = 0
    for c in s:
        m |= 1 << (c if isinstance(c, int) else ord(c))
    return m


WS = M(" \t\n\v\f\r")
DIG = M("0123456789")
LOW = M("abcdefghijklmnopqrstuvwxyz")
UP = M("ABCDEFGHIJKLMNOPQRSTUVWXYZ")
ALPHA = LOW | UP
XD = DIG | M("abcdefABCDEF")
BS = M("\\")
WORD = ALPHA | DIG | M("_")
SINGLE = {"(": "LPAREN", ")": "RPAREN", "{": "LBRACE", "}": "RBRACE", "[": "LBRACK", "]": "RBRACK", ",": "COMMA", ":": "COLON",
          "+": "OP_ADD", "-": "OP_SUB", "/": "OP_DIV", "%": "OP_MOD", "~": "OP_BITINV", "|": "OP_BITOR", "&": "OP_BITAND",
          "#": "OP_LEN", "^": "OP_BITXOR", "?": "OP_BOOL"}
KEYWORDS = {"_": "SELF", "and": "OP_AND", "or": "OP_OR", "not": "OP_NOT", "typeof": "OP_TYPEOF", "true": "C_TRUE",
            "false": "C_FALSE", "null": "C_NULL", "as": "OP_CAST"}
MAXI = (1 << 63) - 1
HEXV = tuple(int(chr(i), 16) if XD >> i & 1 else None for i in range(256))
CLS = {"w": "word", "s": "string", "n": "number", "o": "operator"}
PROP = {"w": "L03", "s": "L04", "n": "L05", "o": "L02"}


class Tok:
    __slots__ = ("cls", "type", "text", "num", "b", "e", "raw")

    def __init__(self, cls, type, b, e, text=None, num=None):
        self.cls = cls
        self.type = type
        self.text = text
        self.num = num
        self.b = b
        self.e = e


class Ref:
    def __init__(self, st, tape):
        self.st = st
        self.tape = tape
        self.p = 0           # next position to consume
        self.mode = "S"
        self.b = 0
        self.out = []
        self.reset()
        self.error = None
        self.free = None     # set when the language guide leaves the outcome open

    def reset(self):
        self.text = T.EMPTY
        self.pre = None
        self.quote = None
        self.kind = None
        self.num = 0
        self.over = False
        self.frac = None     # value so far when a point was seen
        self.k = 0           # fraction digits
        self.exp = None
        self.neg = False
        self.expd = False
        self.base = 10

    # landmarks: abstract numbers the analysed program may hold in some form
    def numbers(self):
        r = []
        if self.mode in ("INT", "ZERO", "FRAC", "EXP", "EXP0", "HEX", "BIN", "HEX0", "BIN0"):
            if not self.over:
                r.append(("num", self.num))
            if self.frac is not None:
                r.append(("frac", self.frac))
                r.append(("k", self.k))
            if self.exp is not None:
                r.append(("exp", self.exp))
        return r

    def emit(self, tok):
        self.out.append(tok)
        self.mode = "S"
        self.reset()

    def op(self, name, b, e):
        self.emit(Tok("o", name, b, e))

    def fail(self, why):
        self.error = why

    def cls(self, c, parts, label):
        """Chooses the class of character c among masks; index len(parts) is 'anything else'."""
        rest = FULL
        ps = []
        for m in parts:
            ps.append((c, m & rest))
            rest &= ~m
        ps.append((c, rest))
        return self.st.split(ps, "ref " + label)

    def val(self, c, tab):
        return self.st.simp(TF(c, tab))

    # -- driving
    def feed(self, upto):
        """Consumes the tape up to position `upto` (exclusive), which the program has passed."""
        n = 0
        while self.error is None and self.free is None:
            d = self.st.simp(self.st.sub(upto, self.p))
            if isnum(d):
                if d <= 0:
                    return
            else:
                lo, hi = self.st.bounds(d)
                if hi is not None and hi <= 0:
                    return
                if lo is None or lo <= 0:
                    raise Unsupported("position of unknown distance")
            self.step(self.tape.cell(self.p))
            n += 1
            if n > 200:
                raise Unsupported("reference lexer runs ahead")

    def finish(self):
        """Runs to the end of the input; True when the end was reached."""
        n = 0
        while self.error is None and self.free is None:
            if not self.st.cmp("<", self.p, self.tape.end, "ref end"):
                self.eof()
                return True
            n += 1
            if n > 3:
                raise PathEnd("reference lexer: rest of the input cut")
            self.step(self.tape.cell(self.p))
        return False

    def settle(self):
        """Completes the pending token when the already examined next character (or end) decides it."""
        if self.error or self.free or self.mode == "S":
            return
        st = self.st
        d = st.simp(st.sub(self.tape.end, self.p))
        lo, hi = st.bounds(d)
        if hi is not None and hi <= 0:
            nxt = 0
        else:
            c = self.tape.cells.get(self.p)
            if c is None:
                for q, x in self.tape.cells.items():
                    if st.simp(q) == st.simp(self.p):
                        c = x
                if c is None:
                    return
            if lo is None or lo <= 0:
                return
            nxt = st.dom[c]
        m = self.mode
        stop = None
        if m == "W":
            stop = WORD | BS | (M("'\"") if self.pre in ("r", "R", "re", "RE") else 0)
        elif m == "STAR":
            stop = M("*")
        elif m == "LT":
            stop = M("<=")
        elif m == "GT":
            stop = M(">=")
        elif m == "EQ":
            stop = M("=")
        elif m == "DOT":
            stop = M(".") | DIG
        elif m == "INT":
            stop = DIG | ALPHA | M(".")
        elif m == "ZERO":
            stop = DIG | ALPHA | M(".")
        elif m == "FRAC":
            stop = DIG | ALPHA | M(".")
        elif m in ("HEX", "BIN"):
            stop = DIG | ALPHA | M(".")
        elif m == "EXP" and self.expd:
            stop = DIG | ALPHA | M(".")
        if stop is None or nxt & stop:
            return
        self.close()

    # -- one character
    def step(self, c):
        p = self.p
        self.one(c, p)
        self.p = self.st.simp(self.st.add(p, 1))

    def one(self, c, p):
        for _ in range(6):
            if not getattr(self, "m_" + self.mode)(c, p):
                return
        raise Unsupported("reference lexer loops")

    def word_done(self, p):
        self.emit(Tok("w", None, self.b, p, self.text))

    def m_S(self, c, p):
        masks = [WS, DIG & ~M("0"), M("0"), M("."), M("'"), M('"'), M("r"), M("R"), ALPHA | M("_$"), BS, M("*"), M("<"), M(">"),
                 M("="), M("!")] + [M(k) for k in SINGLE]
        i = self.cls(c, masks, "start")
        if i == 0:
            return
        self.reset()
        self.b = p
        if i == 1:
            self.mode = "INT"
            self.num = self.val(c, HEXV)
        elif i == 2:
            self.mode = "ZERO"
        elif i == 3:
            self.mode = "DOT"
        elif i in (4, 5):
            self.mode = "STR"
            self.kind = "s"
            self.quote = 39 if i == 4 else 34
        elif i in (6, 7, 8):
            self.mode = "W"
            self.pre = {6: "r", 7: "R", 8: None}[i]
            self.text = self.app(c)
        elif i == 9:
            self.mode = "WESC"
        elif i == 10:
            self.mode = "STAR"
        elif i == 11:
            self.mode = "LT"
        elif i == 12:
            self.mode = "GT"
        elif i == 13:
            self.mode = "EQ"
        elif i == 14:
            self.mode = "BANG"
        elif i < 15 + len(SINGLE):
            self.op(list(SINGLE.values())[i - 15], p, self.st.add(p, 1))
        else:
            self.fail("invalid character")

    def app(self, c):
        return T.cat(self.st, self.text, T.Text([("c", TF(c, UNSIGNED))]))

    def m_W(self, c, p):
        pre = self.pre
        masks = []
        if pre in ("r", "R", "re", "RE"):
            masks = [M("'"), M('"'), M("e") if pre == "r" else M("E") if pre == "R" else 0]
        else:
            masks = [0, 0, 0]
        i = self.cls(c, masks + [WORD, BS], "word")
        if i < 2:
            self.mode = "STR"
            self.kind = "s" if pre in "rR" else "e"
            self.raw = True
            self.quote = 39 if i == 0 else 34
            self.text = T.EMPTY
            self.pre = "raw"
            return
        if i == 2:
            self.pre = pre + ("e" if pre == "r" else "E")
            self.text = self.app(c)
        elif i == 3:
            self.pre = None
            self.text = self.app(c)
        elif i == 4:
            self.pre = None
            self.mode = "WESC"
        else:
            self.word_done(p)
            return True

    def m_WESC(self, c, p):
        self.pre = None
        self.text = self.app(c)
        self.mode = "W"

    def m_STR(self, c, p):
        i = self.cls(c, [1 << self.quote, BS], "string")
        if i == 0:
            e = self.st.add(p, 1)
            self.emit(Tok("s", "REGEXP" if self.kind == "e" else "STRING", self.b, e, self.text))
        elif i == 1:
            self.mode = "SESC"
        else:
            self.text = self.app(c)

    def m_SESC(self, c, p):
        self.mode = "STR"
        if self.pre == "raw":
            if self.cls(c, [1 << self.quote], "raw escape") == 0:
                self.text = self.app(c)
                return
            self.text = T.cat(self.st, self.text, T.Text([("c", 92)]))
            return True
        i = self.cls(c, [M("n"), M("r"), M("t")], "escape")
        if i < 3:
            self.text = T.cat(self.st, self.text, T.Text([("c", (10, 13, 9)[i])]))
        else:
            self.text = self.app(c)

    # numbers
    def digit(self, c):
        st = self.st
        n = st.simp(st.add(st.mul(self.base, self.num), self.val(c, HEXV)))
        if self.over or st.cmp(">", n, MAXI, "ref overflow"):
            self.over = True
            self.num = 0
        else:
            self.num = st.simp(n)

    def m_ZERO(self, c, p):
        i = self.cls(c, [M("x"), M("b")], "base")
        if i == 0:
            self.mode, self.base = "HEX0", 16
        elif i == 1:
            self.mode, self.base = "BIN0", 2
        else:
            self.mode = "INT"
            return True

    def m_HEX0(self, c, p):
        if self.cls(c, [XD], "hex digit") != 0:
            return self.fail("missing digit after 0x")
        self.mode = "HEX"
        self.digit(c)

    def m_BIN0(self, c, p):
        if self.cls(c, [M("01")], "binary digit") != 0:
            return self.fail("missing binary digit after 0b")
        self.mode = "BIN"
        self.digit(c)

    def m_HEX(self, c, p):
        i = self.cls(c, [XD, ALPHA | M(".")], "hex")
        if i == 0:
            return self.digit(c)
        if i == 1:
            return self.fail("letter or point after a hexadecimal number")
        self.close()
        return True

    def m_BIN(self, c, p):
        i = self.cls(c, [M("01"), M("eE"), DIG | ALPHA | M(".")], "bin")
        if i == 0:
            return self.digit(c)
        if i == 1:
            self.free = "exponent on a binary number"
            return
        if i == 2:
            return self.fail("digit outside the base, letter or point after a binary number")
        self.close()
        return True

    def m_INT(self, c, p):
        i = self.cls(c, [DIG, M("."), M("eE"), ALPHA], "int")
        if i == 0:
            return self.digit(c)
        if i == 1:
            self.mode = "FRAC"
            self.frac = self.num
            self.k = 0
            if self.over:
                self.free = "integer part beyond 64 bit in a floating literal"
            return
        if i == 2:
            self.mode = "EXP0"
            self.exp = 0
            if self.over:
                self.free = "integer part beyond 64 bit in a floating literal"
            return
        if i == 3:
            return self.fail("letter after a number")
        self.close()
        return True

    def m_FRAC(self, c, p):
        i = self.cls(c, [DIG, M("eE"), ALPHA | M(".")], "frac")
        st = self.st
        if i == 0:
            self.k = st.simp(st.add(self.k, 1))
            self.frac = st.add(self.frac, st.mul(self.val(c, HEXV), st.pw(10, st.neg(self.k))))
            return
        if i == 1:
            self.mode = "EXP0"
            self.exp = 0
            return
        if i == 2:
            return self.fail("letter or point after a number")
        self.close()
        return True

    def m_EXP0(self, c, p):
        if self.cls(c, [M("-")], "exponent sign") == 0:
            self.neg = True
            self.mode = "EXP"
            return
        self.mode = "EXP"
        return True

    def m_EXP(self, c, p):
        i = self.cls(c, [DIG, ALPHA | M(".")], "exp")
        st = self.st
        if i == 0:
            self.expd = True
            self.exp = st.simp(st.add(st.mul(10, self.exp), self.val(c, HEXV)))
            return
        if not self.expd:
            self.free = "exponent without digits"
            return
        if i == 1:
            return self.fail("letter or point after a number")
        self.close()
        return True

    # operators
    def m_STAR(self, c, p):
        if self.cls(c, [M("*")], "*") == 0:
            return self.op("WILDCARD", self.b, self.st.add(p, 1))
        self.op("OP_TIMES", self.b, p)
        return True

    def m_LT(self, c, p):
        i = self.cls(c, [M("<"), M("=")], "<")
        if i == 0:
            return self.op("OP_LSHIFT", self.b, self.st.add(p, 1))
        if i == 1:
            return self.op("OP_LTEQ", self.b, self.st.add(p, 1))
        self.op("OP_LT", self.b, p)
        return True

    def m_GT(self, c, p):
        i = self.cls(c, [M(">"), M("=")], ">")
        if i == 0:
            return self.op("OP_RSHIFT", self.b, self.st.add(p, 1))
        if i == 1:
            return self.op("OP_GTEQ", self.b, self.st.add(p, 1))
        self.op("OP_GT", self.b, p)
        return True

    def m_EQ(self, c, p):
        if self.cls(c, [M("=")], "=") == 0:
            return self.op("OP_EQ", self.b, self.st.add(p, 1))
        self.op("OP_EQ", self.b, p)
        return True

    def m_BANG(self, c, p):
        if self.cls(c, [M("=")], "!") == 0:
            return self.op("OP_NOT_EQ", self.b, self.st.add(p, 1))
        self.fail("'!' alone")

    def m_DOT(self, c, p):
        i = self.cls(c, [M("."), DIG], ".")
        if i == 0:
            self.mode = "DOT2"
            return
        if i == 1:
            self.mode = "FRAC"
            self.num = 0
            self.frac = 0
            self.k = 0
            return True
        self.op("DOT", self.b, p)
        return True

    def m_DOT2(self, c, p):
        i = self.cls(c, [M("."), DIG], "..")
        st = self.st
        b = self.b
        m = st.add(b, 1)
        if i == 0:
            return self.op("OP_UNPACK", b, st.add(p, 1))
        self.op("DOT", b, m)
        if i == 1:
            self.b = m
            self.mode = "FRAC"
            self.num = 0
            self.frac = 0
            self.k = 0
            return True
        self.op("DOT", m, p)
        return True

    # -- end of token by end of input or by a character that cannot continue it
    def close(self):
        p, st, m = self.p, self.st, self.mode
        if m == "W":
            self.word_done(p)
        elif m in ("INT", "ZERO", "HEX", "BIN"):
            if self.over:
                self.fail("integer does not fit 64 bit")
            else:
                self.emit(Tok("n", "INT", self.b, p, num=self.num))
        elif m == "FRAC":
            self.emit(Tok("n", "FLOAT", self.b, p, num=self.frac))
        elif m == "EXP":
            v = self.num if self.frac is None else self.frac
            if st.cmp("==", self.exp, 0, "ref exponent 0"):
                self.emit(Tok("n", "INT" if self.frac is None else "FLOAT", self.b, p, num=v))
            else:
                e = st.neg(self.exp) if self.neg else self.exp
                self.emit(Tok("n", "FLOAT", self.b, p, num=st.mul(v, st.pw(10, e))))
        elif m in ("STAR", "LT", "GT", "EQ", "DOT"):
            self.op({"STAR": "OP_TIMES", "LT": "OP_LT", "GT": "OP_GT", "EQ": "OP_EQ", "DOT": "DOT"}[m], self.b, p)
        else:
            raise Unsupported("close in " + m)

    def eof(self):
        m, st = self.mode, self.st
        if m == "S":
            return
        if m in ("STR", "SESC"):
            return self.fail("unterminated literal")
        if m == "WESC":
            return self.fail("escape cut off")
        if m == "BANG":
            return self.fail("'!' alone")
        if m in ("HEX0", "BIN0"):
            return self.fail("missing digit")
        if m == "EXP0" or (m == "EXP" and not self.expd):
            self.free = "exponent without digits"
            return
        if m == "DOT2":
            b = self.b
            self.op("DOT", b, st.add(b, 1))
            self.op("DOT", st.add(b, 1), self.p)
            return
        self.close()

    def keyword(self, text):
        """Keyword token name of a word text, or None (decided by refinement)."""
        st = self.st
        n = T.length(st, text)
        lo, hi = st.bounds(n)
        cand = [k for k in KEYWORDS if (lo is None or len(k) >= lo) and (hi is None or len(k) <= hi)]
        for k in sorted(cand):
            if not st.cmp("==", n, len(k), "ref keyword length"):
                continue
            ok = True
            for i, ch in enumerate(k):
                v = st.simp(T.at(st, text, i))
                want = {ord(ch), ord(ch.upper())}
                if isnum(v):
                    ok = v in want
                else:
                    ok = st.tsplit(v, lambda x: x in want, "ref keyword")
                if not ok:
                    break
            if ok:
                return KEYWORDS[k]
            n = T.length(st, text)
        return None
