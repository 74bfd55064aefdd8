"""nlohmann::json values."""
from fractions import Fraction
from .dom import *
from .interp import *
from . import text as T
from . import lib
from .lib import StdObj, StrObj, SvObj, It, InitList, VecObj, Opaque, val, rd, as_text, moving, isstr, FREE, free

NULL_, OBJ, ARR, STR, BOOL, INT, UINT, FLT, BIN, DISC = range(10)
NAMES = ["null", "object", "array", "string", "boolean", "number", "number", "number", "binary", "discarded"]
N = "nlohmann::detail::"
for _n in ("type_error", "parse_error", "out_of_range", "invalid_iterator", "other_error"):
    EXC[N + _n] = N + "exception"
EXC[N + "exception"] = "std::exception"


def keybytes(I, a):
    t = as_text(I, a)
    s = T.chars(I.st, t)
    if s is None or not all(isnum(x) for x in s):
        raise Unsupported("name of a JSON member")
    return bytes(int(x) & 255 for x in s)


class JsonObj(StdObj):
    name = "json"

    def __init__(self, kind=NULL_, v=None):
        self.kind = kind
        self.v = v      # scalar | Text | [Cell] | [(bytes, Cell)]

    def copy(self, I):
        return JsonObj(self.kind, [Cell(c.v.copy(I), c.t) for c in self.v] if self.kind == ARR else [(k, Cell(c.v.copy(I), c.t)) for k, c in self.v] if self.kind == OBJ else self.v)

    def move(self, I):
        r = JsonObj(self.kind, self.v)
        self.kind, self.v = NULL_, None
        return r

    def kids(self):
        return self.v if self.kind == ARR else [c for k, c in self.v] if self.kind == OBJ else []

    def error(self, I, what, loc, n="type_error"):
        I.throw(N + n, what, loc)

    # iteration
    def items_(self):
        return self.kids() if self.kind in (ARR, OBJ) else [Cell(self)] if self.kind != NULL_ else []

    def item(self, I, i, loc):
        i = I.concrete(i, "json iterator")
        x = self.items_()
        if not 0 <= i < len(x):
            I.ub("an iterator over JSON is dereferenced at its end", loc)
        return x[i]

    def key_at(self, I, i, loc):
        i = I.concrete(i, "json iterator")
        if self.kind == OBJ:
            if not 0 <= i < len(self.v):
                I.ub("an iterator over JSON is dereferenced at its end", loc)
            return T.const(self.v[i][0])
        return T.const(str(i).encode() if self.kind == ARR else b"")

    def m_begin(self, I, a, loc):
        return JIt(self, 0)

    def m_end(self, I, a, loc):
        return JIt(self, len(self.items_()))

    m_cbegin, m_cend = m_begin, m_end

    def m_items(self, I, a, loc):
        return JItems(self)

    # inspection
    def m_type(self, I, a, loc):
        return self.kind

    def m_size(self, I, a, loc):
        return len(self.v) if self.kind in (ARR, OBJ) else 0 if self.kind == NULL_ else 1

    def m_empty(self, I, a, loc):
        return int(self.m_size(I, a, loc) == 0)

    def m_type_name(self, I, a, loc):
        return APtr(CStr(NAMES[self.kind].encode()), 0)

    def find(self, I, a):
        if self.kind != OBJ:
            return None
        k = keybytes(I, a)
        for i, (n, c) in enumerate(self.v):
            if n == k:
                return i
        return None

    def m_contains(self, I, a, loc):
        return int(self.find(I, a[0]) is not None)

    m_count = m_contains

    def m_find(self, I, a, loc):
        i = self.find(I, a[0])
        return JIt(self, len(self.items_()) if i is None else i)

    def m_at(self, I, a, loc):
        if isstr(rd(I, a[0])):
            if self.kind != OBJ:
                self.error(I, "cannot use at()", loc)
            i = self.find(I, a[0])
            if i is None:
                self.error(I, "key not found", loc, "out_of_range")
            return self.v[i][1]
        if self.kind != ARR:
            self.error(I, "cannot use at()", loc)
        i = I.concrete(rd(I, a[0]), "json index")
        if not 0 <= i < len(self.v):
            self.error(I, "array index is out of range", loc, "out_of_range")
        return self.v[i]

    def op_index(self, I, a, loc):
        if isstr(rd(I, a[0])):
            const = ((loc.get("t") if isinstance(loc, dict) else None) is not None and loc["t"].k == "c")
            if self.kind == NULL_ and not const:
                self.kind, self.v = OBJ, []
            if self.kind != OBJ:
                self.error(I, "cannot use operator[] with a string argument", loc)
            i = self.find(I, a[0])
            if i is None:
                k = keybytes(I, a[0])
                i = len([1 for n, c in self.v if n < k])
                self.v.insert(i, (k, Cell(JsonObj())))
            return self.v[i][1]
        i = I.concrete(rd(I, a[0]), "json index")
        if self.kind == NULL_:
            self.kind, self.v = ARR, []
        if self.kind != ARR:
            self.error(I, "cannot use operator[] with a numeric argument", loc)
        while len(self.v) <= i:
            self.v.append(Cell(JsonObj()))
        return self.v[i]

    # building
    def op_assign(self, I, a, loc):
        x = rd(I, a[0])
        if not isinstance(x, JsonObj):
            x = convert(I, a[0], loc)
        elif x is self:
            return
        else:
            x = x.move(I) if moving(I, a[0], loc) else x.copy(I)
        self.kind, self.v = x.kind, x.v

    def m_push_back(self, I, a, loc):
        if self.kind == NULL_:
            self.kind, self.v = ARR, []
        if self.kind != ARR:
            self.error(I, "cannot use push_back()", loc)
        x = rd(I, a[0])
        if isinstance(x, InitList):
            raise Unsupported("json push_back of a list")
        x = convert(I, a[0], loc) if not isinstance(x, JsonObj) else x.move(I) if moving(I, a[0], loc) else x.copy(I)
        self.v.append(Cell(x))

    def m_emplace_back(self, I, a, loc):
        self.m_push_back(I, a, loc)
        return self.v[-1]

    op_iadd = m_push_back

    def m_emplace(self, I, a, loc):
        if self.kind == NULL_:
            self.kind, self.v = OBJ, []
        if self.find(I, a[0]) is None:
            c = self.op_index(I, a[:1], None)
            x = rd(I, a[1])
            c.v = x.copy(I) if isinstance(x, JsonObj) else convert(I, a[1], loc)

    def m_clear(self, I, a, loc):
        self.v = [] if self.kind in (ARR, OBJ) else self.v

    # conversion
    def m_get(self, I, a, loc):
        ta = (loc.get("fn") or {}).get("ta") or []
        return self.to(I, ta[0] if ta else None, loc)

    def m_get_ref(self, I, a, loc):
        raise Unsupported("json get_ref")

    def m_get_ptr(self, I, a, loc):
        raise Unsupported("json get_ptr")

    def conv(self, I, a, loc):
        t = loc.get("t")
        return self.to(I, t.noref() if t is not None else None, loc)

    def to(self, I, t, loc):
        if t is None:
            raise Unsupported("json conversion")
        if t.n == "nlohmann::basic_json":
            return self.copy(I)
        if t.isbool:
            if self.kind != BOOL:
                self.error(I, "type must be boolean", loc)
            return self.v
        if t.flt or t.isint:
            if self.kind not in (BOOL, INT, UINT, FLT):
                self.error(I, "type must be number", loc)
            if t.flt:
                return self.v
            return I.float_to_int(self.v, t, loc) if self.kind == FLT else I.fit(self.v, t, loc, conv=True)
        if t.n in ("std::basic_string", "std::basic_string_view"):
            if self.kind != STR:
                self.error(I, "type must be string", loc)
            return StrObj(self.v) if t.n == "std::basic_string" else SvObj(self.v)
        raise Unsupported("json conversion to %s" % t.key)

    def op_eq(self, I, a, loc):
        raise Unsupported("comparison of json")


def _is(m, *ks):
    setattr(JsonObj, "m_is_" + m, lambda self, I, a, loc: int(self.kind in ks))


for m, ks in (("null", (NULL_,)), ("object", (OBJ,)), ("array", (ARR,)), ("string", (STR,)), ("boolean", (BOOL,)), ("number", (INT, UINT, FLT)),
              ("number_integer", (INT, UINT)), ("number_unsigned", (UINT,)), ("number_float", (FLT,)), ("binary", (BIN,)), ("discarded", (DISC,)),
              ("structured", (ARR, OBJ)), ("primitive", (NULL_, STR, BOOL, INT, UINT, FLT, BIN))):
    _is(m, *ks)


class JIt(It):
    def copy(self, I):
        return JIt(self.o, self.i)

    def m_key(self, I, a, loc):
        return Cell(StrObj(self.o.key_at(I, self.i, loc)))

    def m_value(self, I, a, loc):
        return self.o.item(I, self.i, loc)

    def op_inc(self, I, a, loc):
        self.i += 1

    def op_dec(self, I, a, loc):
        self.i -= 1


class JItems(StdObj):
    def __init__(self, o):
        self.o = o

    def copy(self, I):
        return self

    def m_begin(self, I, a, loc):
        return JPIt(self.o, 0)

    def m_end(self, I, a, loc):
        return JPIt(self.o, len(self.o.items_()))

    m_cbegin, m_cend = m_begin, m_end


class JPIt(JIt):
    """Iterator and element of items() in one, as in the library."""

    def copy(self, I):
        return JPIt(self.o, self.i)

    def op_deref(self, I, a, loc):
        return Cell(self)


@free(N + "get", "std::get#json")
def _jget(I, a, loc):
    v = rd(I, a[0])
    ta = loc["fn"].get("ta") or []
    if not isinstance(v, JPIt) or not ta or not isinstance(ta[0], int):
        raise Unsupported("json structured binding")
    return v.m_key(I, [], loc) if ta[0] == 0 else v.m_value(I, [], loc)


def static_type(I, a, loc, i=0):
    t = a.t if isinstance(a, Cell) else None
    if t is None and isinstance(loc, dict):
        ps = (loc.get("fn") or {}).get("ps") or []
        if len(ps) > i and ps[i] is not None:
            t = ps[i].noref()
        xs = loc.get("a") or []
        if t is None and len(xs) > i and isinstance(xs[i], dict):
            t = xs[i].get("t")
    return t.noref() if t is not None else None


def convert(I, a, loc, i=0):
    v = rd(I, a)
    if isinstance(v, JsonObj):
        return v.move(I) if moving(I, a, loc) else v.copy(I)
    if isinstance(v, InitList):
        return listed(I, v)
    if v is NULL or isinstance(v, NullPtr_):
        return JsonObj()
    if isstr(v):
        return JsonObj(STR, as_text(I, a))
    if isinstance(v, FSpecial) or isinstance(v, Fraction) or isinstance(v, float):
        return JsonObj(FLT, v)
    t = static_type(I, a, loc, i)
    if t is not None and t.key and "value_t" in t.key:
        k = I.concrete(v, "json kind")
        return JsonObj(k, [] if k in (ARR, OBJ) else T.const(b"") if k == STR else 0 if k in (BOOL, INT, UINT) else Fraction(0) if k == FLT else None)
    if t is None:
        raise Unsupported("json of a value of unknown type")
    if t.isbool:
        return JsonObj(BOOL, v)
    if t.flt:
        return JsonObj(FLT, v)
    if t.isint:
        return JsonObj(INT if t.s else UINT, v)
    raise Unsupported("json of %s" % t.key)


NullPtr_ = type(NULL)


def listed(I, l, mode=None):
    xs = [c.v if isinstance(c.v, JsonObj) else convert(I, c, None) for c in l.items]
    pairs = all(x.kind == ARR and len(x.v) == 2 and x.v[0].v.kind == STR for x in xs)
    if mode == OBJ and not pairs:
        I.throw(N + "type_error", "cannot create object from initializer list")
    if mode == OBJ or mode is None and pairs:
        r = JsonObj(OBJ, [])
        for x in xs:
            r.op_index(I, [Cell(StrObj(x.v[0].v.v))], None).v = x.v[1].v
        return r
    return JsonObj(ARR, [Cell(x) for x in xs])


@free("nlohmann::basic_json::array")
def _array(I, a, loc):
    return listed(I, rd(I, a[0]), ARR) if a and isinstance(rd(I, a[0]), InitList) else JsonObj(ARR, [])


@free("nlohmann::basic_json::object")
def _object(I, a, loc):
    return listed(I, rd(I, a[0]), OBJ) if a and isinstance(rd(I, a[0]), InitList) else JsonObj(OBJ, [])


def ctor(I, t, args, loc):
    if not args:
        return JsonObj()
    return convert(I, args[0], loc)


lib.LIBCTORS["nlohmann::basic_json"] = ctor
lib.LIBCTORS["nlohmann::detail::json_ref"] = ctor
