"""Contracts of the C++ standard library functions the code under verification calls (assumed, listed in the evidence)."""
import re
from fractions import Fraction
import z3
from .values import *
from .ctypes_ import ptype, T, strip_cv
from .interp import lib, LIB, LIBPAT, PathEnd, LV


def pat(rx):
    def d(f):
        LIBPAT.append((re.compile(rx), f))
        return f
    return d


def V(ex, x):
    return ex.rd(x)


# ---------------------------------------------------------------- math
def _mathfn(name):
    def h(ex, e, o, a):
        x = toreal(ex.rd(a[0]))
        return rfun(ex, name, x)
    return h


def rfun(ex, name, *xs):
    xs = [toreal(x) for x in xs]
    if name in ("sin", "cos", "exp", "tanh", "sqrt", "atan", "log", "tan"):
        x = xs[0]
        if not is_sym(x):
            if x == 0:
                return Fraction({"sin": 0, "cos": 1, "exp": 1, "tanh": 0, "sqrt": 0, "atan": 0, "tan": 0}.get(name, 0)) \
                    if name != "log" else ex.uf("log", xs, "real")
            if name == "sqrt":
                from math import isqrt
                n, d = x.numerator, x.denominator
                if n >= 0 and isqrt(n) ** 2 == n and isqrt(d) ** 2 == d:
                    return Fraction(isqrt(n), isqrt(d))
    return ex.uf(name, [zx(x) for x in xs], "real")


for _n in ("sin", "cos", "exp", "log", "tanh", "tan", "atan", "asin", "acos", "sqrt", "atan2", "floor", "ceil"):
    def _mk(n):
        def h(ex, e, o, a):
            return rfun(ex, n, *[ex.rd(x) for x in a])
        return h
    LIB[_n] = _mk(_n)
    LIB["std::" + _n] = _mk(_n)


@lib("fabs", "std::fabs", "std::abs", "abs", "fabsf")
def _abs(ex, e, o, a):
    x = ex.rd(a[0])
    return absv(x)


def absv(x):
    if not is_sym(x):
        return abs(x)
    return ite(ge(x, 0), x, neg(x))


@lib("std::min", "fmin", "std::fmin")
def _min(ex, e, o, a):
    x, y = ex.rd(a[0]), ex.rd(a[1])
    return ite(lt(y, x), y, x)


@lib("std::max", "fmax", "std::fmax")
def _max(ex, e, o, a):
    x, y = ex.rd(a[0]), ex.rd(a[1])
    return ite(lt(x, y), y, x)


@lib("pow", "std::pow")
def _pow(ex, e, o, a):
    x, y = ex.rd(a[0]), ex.rd(a[1])
    if not is_sym(y) and y == int(y) and 0 <= y <= 8:
        r = Fraction(1)
        for _ in range(int(y)):
            r = mul(r, toreal(x))
        return r
    return ex.uf("pow", [toreal(x), toreal(y)], "real")


@lib("std::isnan", "isnan", "isinf", "std::isinf")
def _isnan(ex, e, o, a):
    # reals never are NaN; the NaN branch is covered through an uninterpreted predicate
    return ex.uf("isnan", [toreal(ex.rd(a[0]))], "bool")


@lib("std::isfinite", "isfinite")
def _isfin(ex, e, o, a):
    return not_(ex.uf("isnan", [toreal(ex.rd(a[0]))], "bool"))


@lib("std::numeric_limits::max", "std::numeric_limits::infinity")
def _nlmax(ex, e, o, a):
    t = ptype(e["t"])
    if t.k == "real":
        v = z3.Real("DBL_MAX")
        ex.fact(v > 10 ** 300)
        return v
    w = ex.width(t)
    return 2 ** w - 1 if t.k == "uint" else 2 ** (w - 1) - 1


@lib("std::numeric_limits::min", "std::numeric_limits::epsilon", "Eigen::NumTraits::dummy_precision",
     "Eigen::NumTraits::epsilon")
def _nlmin(ex, e, o, a):
    t = ptype(e["t"])
    if t.k == "real":
        if "dummy_precision" in e["fn"]:
            return Fraction(1, 10 ** 12)
        if "epsilon" in e["fn"]:
            return Fraction(1, 2 ** 52)
        v = z3.Real("DBL_MIN")
        ex.fact(z3.And(v > 0, v < Fraction(1, 10 ** 300).limit_denominator(10 ** 301)))
        return v
    w = ex.width(t)
    return 0 if t.k == "uint" else -(2 ** (w - 1))


@lib("std::move", "std::forward", "std::ref", "std::cref", "boost::ref", "boost::cref", "std::addressof")
def _move(ex, e, o, a):
    if e["fn"] == "std::addressof":
        return Ptr("loc", lv=a[0])
    return a[0]


@lib("std::swap")
def _swap(ex, e, o, a):
    x, y = ex.rd(a[0]), ex.rd(a[1])
    ex.write(a[0], y)
    ex.write(a[1], x)


@lib("assert", "__assert_fail", "abort", "exit")
def _abort(ex, e, o, a):
    raise PathEnd()


# ---------------------------------------------------------------- strings
def is_str(x):
    return isinstance(x, str) or (is_sym(x) and z3.is_string(x))


def sconcat(a, b):
    if isinstance(a, str) and isinstance(b, str):
        return a + b
    if isinstance(a, str) and a == "":
        return b
    if isinstance(b, str) and b == "":
        return a
    return z3.Concat(zx(a), zx(b))


def tostr(ex, v):
    if v is None or isinstance(v, Opaque):
        return None
    if is_str(v):
        return v
    if isinstance(v, bool):
        return "1" if v else "0"
    if isinstance(v, int):
        return str(v)
    if is_sym(v) and z3.is_int(v):
        return ex.uf("int2str", (v,), "str")
    if is_sym(v) and z3.is_bool(v):
        return z3.If(v, z3.StringVal("1"), z3.StringVal("0"))
    if is_real(v):
        return ex.uf("real2str", (v,), "str")
    return None


def cstr(ex, v):
    """char pointer value -> string"""
    v = ex.rd(v)
    if isinstance(v, Iter):
        s = ex.rd(v.lv)
        if is_str(s):
            return s
        if isinstance(s, Seq):
            t = getattr(s, "_text", None)
            return None
    return v


@pat(r"^std::basic_string::ctor$")
def _sctor(ex, e, o, a):
    if not a:
        return ""
    v = ex.rd(a[0])
    if is_str(v):
        return v
    if isinstance(v, Iter):
        s = ex.rd(v.lv)
        if is_str(s):
            return s
        if isinstance(s, Struct) and s.cls == "textbuf":
            return s.get("text")
    if isinstance(v, Opaque):
        return ex.fresh("str", "opaque_string")
    if isinstance(v, Struct) and v.cls == "textbuf":
        return v.get("text")
    raise Unsupported("string constructor from %r" % (v,))


@pat(r"^std::operator\+$")
def _splus(ex, e, o, a):
    x, y = ex.rd(a[0]), ex.rd(a[1])
    if isinstance(x, Opaque) or isinstance(y, Opaque):
        return ex.fresh("str", "opaque_string")
    def c(v):
        if is_str(v):
            return v
        if isinstance(v, int):
            return chr(v)
        if is_sym(v):
            return z3.StrFromCode(v)
        if isinstance(v, Iter):
            return ex.rd(v.lv)
        if isinstance(v, Struct) and v.cls == "textbuf":
            return v.get("text")
        raise Unsupported("string +")
    return sconcat(c(x), c(y))


@pat(r"^std::operator(==|!=|<|>|<=|>=)$")
def _scmp(ex, e, o, a):
    x, y = ex.rd(a[0]), ex.rd(a[1])
    op = e["op"]
    if isinstance(x, Opaque) or isinstance(y, Opaque):
        return ex.fresh("bool", "opaque_cmp")
    if isinstance(x, Iter) or isinstance(y, Iter) or isinstance(x, Ptr) or isinstance(y, Ptr):
        return ex.binop(op, x, y)
    if is_str(x):
        if op == "==":
            return eq(x, y)
        if op == "!=":
            return ne(x, y)
        if isinstance(x, str) and isinstance(y, str):
            return {"<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y}[op]
        return {"<": zx(x) < zx(y), ">": zx(y) < zx(x), "<=": zx(x) <= zx(y), ">=": zx(y) <= zx(x)}[op]
    if isinstance(x, Seq) and isinstance(y, Seq) and op in ("==", "!="):
        k = z3.Int(ex.new("cmp"))
        r = and_(eq(x.n, y.n), z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < zx(x.n)), zx(eq(x.at(k), y.at(k))))))
        return r if op == "==" else not_(r)
    if isinstance(x, Struct) and x.cls == "std::pair":
        f = and_(eq(ex.rd(x.get("first")), ex.rd(y.get("first"))), eq(ex.rd(x.get("second")), ex.rd(y.get("second"))))
        return f if op == "==" else not_(f)
    return ex.binop(op, x, y)


@pat(r"^std::basic_string::(operator=|assign)$")
def _sassign(ex, e, o, a):
    l, r = (a[0], a[1]) if o is None else (o, a[0])
    v = ex.rd(r)
    if isinstance(v, Opaque):
        v = ex.fresh("str", "opaque_string")
    elif not is_str(v):
        v = _sctor(ex, e, None, [r])
    ex.write(l, v)
    return l


@pat(r"^std::basic_string::(operator\+=|append|push_back)$")
def _sappend(ex, e, o, a):
    l, r = (a[0], a[1]) if o is None else (o, a[0])
    v = ex.rd(r)
    if not is_str(v):
        v = chr(v) if isinstance(v, int) else z3.StrFromCode(v) if is_sym(v) else _sctor(ex, e, None, [r])
    ex.write(l, sconcat(ex.rd(l), v))
    return l


@pat(r"^std::basic_string::(c_str|data)$")
def _scstr(ex, e, o, a):
    return ex.rd(o)


@pat(r"^std::basic_string::(length|size)$")
def _slen(ex, e, o, a):
    v = ex.rd(o)
    return len(v) if isinstance(v, str) else z3.Length(zx(v))


@pat(r"^std::basic_string::empty$")
def _sempty(ex, e, o, a):
    return eq(ex.rd(o), "")


@pat(r"^std::basic_string::(operator\[\]|at)$")
def _sat(ex, e, o, a):
    s, i = (a[0], a[1]) if o is None else (o, a[0])
    return ex.char_at(ex.rd(s), ex.rd(i))


@pat(r"^std::basic_string::(find|rfind|find_last_of|find_first_of|substr|compare|replace|begin|end|erase)$")
def _sfind(ex, e, o, a):
    s = ex.rd(o)
    op = e["fn"].split("::")[-1]
    x = [ex.rd(y) for y in a]
    if op == "compare" and is_str(x[0]):
        return ite(eq(s, x[0]), 0, ex.uf("strcmp", (zx(s), zx(x[0])), "int"))
    if op == "find" and is_str(x[0]):
        r = z3.IndexOf(zx(s), zx(x[0]), zx(x[1] if len(x) > 1 else 0))
        return z3.If(r >= 0, r, z3.IntVal(2 ** 64 - 1))
    if op == "substr":
        n = x[1] if len(x) > 1 else z3.Length(zx(s))
        return z3.SubString(zx(s), zx(x[0]), zx(n))
    raise Unsupported("string " + op)


@pat(r"^std::basic_string::clear$")
def _sclear(ex, e, o, a):
    ex.write(o, "")


@pat(r"^std::(to_string)$")
def _tostring(ex, e, o, a):
    return tostr(ex, ex.rd(a[0]))


@pat(r"^std::(allocator|basic_string_view|initializer_list|less|nothrow_t|_Setprecision|_Setw|locale)::(ctor|dtor)$")
def _alloc(ex, e, o, a):
    return Opaque("alloc")


@pat(r"^std::(setprecision|setw|setfill|fixed|scientific|left|right|boolalpha|setiosflags)$")
def _manip(ex, e, o, a):
    return Opaque("manip")


# ---------------------------------------------------------------- streams
@pat(r"^std::basic_(o|i)?(string)?stream::ctor$")
def _osctor(ex, e, o, a):
    if a:
        v = ex.rd(a[0])
        if is_str(v):
            return Stream(v)
    return Stream("")


@pat(r"^std::basic_(o|i)?(stringstream)::str$")
def _osstr(ex, e, o, a):
    s = ex.rd(o)
    if a:
        ex.write(o, Stream(ex.rd(a[0])))
        return None
    if isinstance(s, Stream) and s.text is not None:
        return s.text
    return ex.fresh("str", "stream_text")


def stream_put(ex, os, v):
    s = ex.rd(os)
    if isinstance(s, Stream):
        if s.text is None:
            return os
        if isinstance(v, Fun):
            nm = (v.fn or {}).get("fn", "")
            t = "\n" if nm.endswith("endl") else ""
        elif isinstance(v, Opaque) and v.what == "manip":
            t = ""
        else:
            t = tostr(ex, v)
        ns = Stream(None if t is None else sconcat(s.text, t))
        if isinstance(os, LV):
            ex.write(os, ns)
        return os
    return os


@pat(r"^std::(basic_ostream::)?operator<<$")
def _osput(ex, e, o, a):
    os = a[0]
    v = ex.rd(a[1])
    # a char argument is a character, not a number
    t = ptype(e["a"][1]["t"]) if len(e.get("a", [])) > 1 else None
    if t is not None and t.s in ("char", "signed char", "unsigned char") and is_scalar(v) and not is_str(v):
        v = chr(v) if isinstance(v, int) else z3.StrFromCode(v)
    return stream_put(ex, os, v)


@pat(r"^(Eigen|dynamicgraph|boost|pinocchio)(::\w+)*::operator<<$")
def _osput2(ex, e, o, a):
    os = ex.rd(a[0])
    if isinstance(os, Stream):
        return stream_put(ex, a[0], Opaque("value"))
    if isinstance(os, Mat):
        from .lib_eigen import comma_init
        return comma_init(ex, e, o, a)
    return a[0]


@pat(r"^std::(endl|flush|ends)$")
def _endl(ex, e, o, a):
    return stream_put(ex, a[0], "\n")


# ---------------------------------------------------------------- text files
# A file is a sequence of K newline-terminated lines line(0..K-1), followed by an unterminated rest (possibly empty); the
# position of a stream is kept as the number j of lines before it; off(j) is its byte offset.
class _FileT:
    cls = "std::fstream"


def file_syms(ex, name):
    nm = zx(name)
    return (ex.uf("file.K", (nm,), "int"), lambda k: ex.uf("file.line", (nm, zx(k)), "str"), lambda k: ex.uf("file.off", (nm, zx(k)), "int"))


def is_file(v):
    return isinstance(v, Struct) and v.cls == "std::fstream"


@pat(r"^std::basic_(ifstream|fstream)::ctor$")
def _fopen(ex, e, o, a):
    if not a or not is_str(ex.rd(a[0])):
        return Opaque("fstream")
    name = ex.rd(a[0])
    opened = getattr(ex, "file_opened", None)
    if opened is None:
        opened = ex.uf("file.opened", (zx(name),), "bool")
    return Struct("std::fstream", {"name": name, "k": 0, "past": False, "eof": False, "fail": simp(not_(opened)) if is_sym(opened) else not opened,
                                   "opened": opened})


@pat(r"^std::basic_(ifstream|fstream|istream|ios)::(seekg|sync|eof|fail|good|operator!|operator_conv|operator bool|tellg|close|clear|is_open|bad)$")
def _fop(ex, e, o, a):
    nm = e["fn"].split("::")[-1]
    v = ex.rd(o)
    if not is_file(v):
        return _stream_any(ex, e, o, a)
    K, line, off = file_syms(ex, v.get("name"))
    if nm == "seekg":
        if len(a) != 1:
            raise Unsupported("seekg with a direction")
        x = ex.rd(a[0])
        k = 0 if x == 0 and not is_sym(x) else ex.uf("file.lineof", (zx(v.get("name")), zx(x)), "int")
        ex.write(o, v.with_("k", ite(v.get("fail"), v.get("k"), k)).with_("past", ite(v.get("fail"), v.get("past"), False)).with_("eof", False))
        return o
    if nm == "sync":
        return 0
    if nm == "eof":
        return v.get("eof")
    if nm in ("fail", "operator!"):
        return v.get("fail")
    if nm in ("operator_conv", "operator bool"):
        return not_(v.get("fail"))
    if nm == "good":
        return and_(not_(v.get("fail")), not_(v.get("eof")))
    if nm == "bad":
        return False
    if nm == "is_open":
        return v.get("opened")
    if nm == "tellg":
        ex.write(o, v.with_("fail", or_(v.get("fail"), v.get("eof"))))
        return ite(or_(v.get("fail"), v.get("eof")), -1, off(v.get("k")))
    if nm == "clear" and not a:
        ex.write(o, v.with_("fail", False).with_("eof", False))
        return None
    if nm == "close":
        return None
    raise Unsupported("file operation " + nm)


@lib("std::getline")
def _getline(ex, e, o, a):
    v = ex.rd(a[0])
    if not is_file(v):
        raise Unsupported("getline of a " + type(v).__name__)
    if len(a) > 2 and ex.rd(a[2]) not in (10, "\n"):
        raise Unsupported("getline with a delimiter")
    K, line, off = file_syms(ex, v.get("name"))
    rest = getattr(ex, "file_rest", None)
    if rest is None:
        rest = ex.uf("file.rest", (zx(v.get("name")),), "bool")
    k, dead = v.get("k"), or_(v.get("fail"), v.get("eof"))
    full = lt(k, K)
    hasrest = and_(rest, not_(v.get("past")))
    txt = ex.uf("file.resttext", (zx(v.get("name")),), "str")
    ex.write(a[1], ite(dead, ex.rd(a[1]), ite(full, line(k), ite(hasrest, txt, ""))))
    ex.write(a[0], Struct(v.cls, dict(v.fields, k=ite(and_(not_(dead), full), add(k, 1), k),
                                      past=or_(v.get("past"), and_(not_(dead), not_(full))),
                                      eof=or_(v.get("eof"), and_(not_(dead), not_(full))),
                                      fail=or_(dead, and_(not_(full), not_(hasrest))))))
    return a[0]


@pat(r"^std::fpos::(ctor|operator_conv|operator long|operator std::streamoff)$")
def _fpos(ex, e, o, a):
    return ex.rd(o) if o is not None else (ex.rd(a[0]) if a else 0)


@pat(r"^std::basic_(ostream|ofstream|ifstream|istream|ios|fstream|stringstream|ostringstream|istringstream|filebuf)::\w+.*$")
def _stream_any(ex, e, o, a):
    nm = e["fn"].split("::")[-1]
    if nm == "ctor":
        return Stream(None) if "fstream" not in e["fn"] else Opaque("fstream")
    if nm in ("flush", "precision", "setf", "close", "open", "clear", "write", "width"):
        return Opaque("stream")
    if nm in ("good", "is_open", "fail", "eof", "operator!", "operator_conv", "bad"):
        return ex.fresh("bool", "stream_state")
    raise Unsupported("stream operation " + e["fn"])


# ---------------------------------------------------------------- varargs formatting
@pat(r"^__builtin_va_(start|end)$")
def _va(ex, e, o, a):
    return None


@pat(r"^__va_list_tag::ctor$")
def _vatag(ex, e, o, a):
    return Opaque("va_list")


@lib("vsnprintf", "snprintf", "sprintf", "vsprintf", "std::vsnprintf", "std::snprintf")
def _vsn(ex, e, o, a):
    """writes format(fmt, args) into the buffer: the text is an uninterpreted function of the format and the arguments,
    truncated to the given size"""
    nm = e["fn"].split("::")[-1]
    dst = a[0]
    if nm in ("vsnprintf", "snprintf"):
        size, fmt = ex.rd(a[1]), ex.rd(a[2])
        rest = [ex.rd(x) for x in a[3:]]
    else:
        size, fmt = None, ex.rd(a[1])
        rest = [ex.rd(x) for x in a[2:]]
    if nm.startswith("v"):
        rest = None
        for fr in reversed(ex.frames):
            if "va" in fr.env:
                rest = fr.env["va"]
                break
        rest = rest or []
    text = fmt_text(ex, fmt, rest)
    if size is not None:
        n = z3.Length(zx(text)) if not isinstance(text, str) else len(text)
        text = ite(lt(n, size), text, z3.SubString(zx(text), z3.IntVal(0), zx(sub(size, 1))))
    p = ex.rd(dst)
    if isinstance(p, Iter) and isinstance(p.lv, LV):
        buf = ex.rd(p.lv)
        ex.write(p.lv, Struct("textbuf", {"text": text, "n": buf.n if isinstance(buf, Seq) else None}))
    elif isinstance(p, Struct) and p.cls == "textbuf":
        ex.write(ex._last_decay, Struct("textbuf", {"text": text, "n": p.get("n")}))
    elif isinstance(p, Opaque):
        pass
    else:
        raise Unsupported("vsnprintf destination")
    return z3.Length(zx(text)) if not isinstance(text, str) else len(text)


def fmt_text(ex, fmt, args):
    aa = []
    for x in args:
        if isinstance(x, Opaque):
            return ex.fresh("str", "fmt")
        aa.append(x)
    if not aa and isinstance(fmt, str) and "%" not in fmt:
        return fmt
    return ex.uf("format%d" % len(aa), [zx(fmt)] + [zx(x) for x in aa], "str")


# ---------------------------------------------------------------- sequences
SEQ = r"^std::(vector|list|deque|_Bit_reference|__cxx11::list)::"


def seq_of(ex, o):
    return ex.rd(o)


@pat(r"^std::(vector|list|deque)::ctor$")
def _vctor(ex, e, o, a):
    t = ptype(e["t"])
    et = t.a[0]
    vals = [ex.rd(x) for x in a]
    vals = [v for v in vals if not (isinstance(v, Opaque) and v.what == "alloc")]
    if not vals:
        return Seq.of([], et)
    if len(vals) == 1 and isinstance(vals[0], Seq):
        return Seq(vals[0].n, vals[0].f, et)
    if len(vals) == 2 and isinstance(vals[0], Iter):
        b, en = vals
        s = ex.rd(b.lv)
        p0 = b.pos
        return Seq(sub(en.pos, b.pos), lambda i: s.at(add(p0, i)), et)
    if len(vals) in (1, 2) and is_scalar(vals[0]):
        n = vals[0]
        fill = vals[1] if len(vals) == 2 else ex.zero(et)
        fill = ex.coerce(fill, et)
        if isinstance(n, int) and n <= 64:
            return Seq.of([fill] * n, et)
        return Seq(n, lambda i: fill, et)
    raise Unsupported("container constructor")


@pat(r"^std::(vector|list|deque)::(operator=|assign)$")
def _vassign(ex, e, o, a):
    if o is None:
        l, r = a[0], a[1]
        ex.write(l, ex.rd(r))
        return l
    n = ex.rd(a[0])
    if isinstance(n, Iter):
        ex.write(o, _vctor(ex, dict(e, t=e["o"]["t"]), None, a))
        return None
    fill = ex.rd(a[1])
    old = ex.rd(o)
    ex.write(o, Seq(n, lambda i: fill, old.et) if not isinstance(n, int) or n > 64 else Seq.of([fill] * n, old.et))
    return None


@pat(r"^std::(vector|list|deque|map|set|multimap|unordered_map)::size$")
def _vsize(ex, e, o, a):
    v = ex.rd(o)
    if isinstance(v, MapV):
        if v.size is None:
            raise Unsupported("size of a map")
        return v.size
    return v.n


@pat(r"^std::(vector|list|deque|map|set|unordered_map)::empty$")
def _vempty(ex, e, o, a):
    v = ex.rd(o)
    if isinstance(v, MapV):
        k = z3.Const(ex.new("k"), key_sort(ex, v))
        h = v.has(k)
        return not_(z3.Exists([k], zx(h))) if h is not False else True
    return eq(v.n, 0)


def key_sort(ex, m):
    k = m.kt.k
    return z3.StringSort() if k in ("str", "cstr") else z3.RealSort() if k == "real" else z3.IntSort()


@pat(r"^std::(vector|list|deque|map|set|unordered_map)::clear$")
def _vclear(ex, e, o, a):
    v = ex.rd(o)
    if isinstance(v, MapV):
        ex.write(o, MapV(lambda q: False, v.get, v.kt, v.vt, 0))
    else:
        # inside a loop the stale elements are kept as they are, so that the element values need no invariant
        ex.write(o, Seq(0, v.f, v.et) if ex.ctx else Seq.of([], v.et))


@pat(r"^std::(vector|deque)::(operator\[\]|at)$")
def _vidx(ex, e, o, a):
    c, i = (a[0], a[1]) if o is None else (o, a[0])
    i = simp(ex.rd(i))
    v = ex.rd(c)
    inb = and_(ge(i, 0), lt(i, v.n))
    if e["fn"].endswith("::at"):
        throw_if(ex, not_(inb), Opaque("std::out_of_range"))
    else:
        ex.oblige("vector index inside bounds", inb, line=e.get("line"))
    if isinstance(c, LV):
        return LV(c.root, c.acc + (("i", i),)) if c.root != "alt" else alt_sub(c, ("i", i))
    return v.at(i)


def alt_sub(lv, a):
    if lv.root == "alt":
        c, x, y = lv.acc
        return LV("alt", (c, alt_sub(x, a), alt_sub(y, a)))
    return LV(lv.root, lv.acc + (a,))


def throw_if(ex, c, val):
    c = simp(c)
    if c is False:
        return
    if c is True:
        ex.thr.append((ex.st, val))
        raise PathEnd()
    if not ex.feasible(c):
        return
    ex.thr.append((ex.st.copy().assume(c), val))
    ex.st = ex.st.assume(not_(c))


@pat(r"^std::(vector|list|deque)::(push_back|emplace_back)$")
def _vpush(ex, e, o, a):
    v = ex.rd(o)
    x = ex.rd(a[0])
    if v.et is not None:
        x = ex.coerce(x, v.et)
    ex.write(o, seq_insert(v, v.n, x))


def seq_insert(v, pos, x):
    if isinstance(v.n, int) and isinstance(pos, int) and v.n < 64:
        items = [v.at(i) for i in range(v.n)]
        items.insert(pos, x)
        return Seq.of(items, v.et)
    n = v.n
    def f(i):
        if same(i, pos):
            return x
        if same(pos, n):
            return ite(eq(i, pos), x, v.at(i))
        return ite(lt(i, pos), v.at(i), ite(eq(i, pos), x, v.at(sub(i, 1))))
    return Seq(add(n, 1), f, v.et)


def seq_erase(v, pos):
    if isinstance(v.n, int) and isinstance(pos, int):
        items = [v.at(i) for i in range(v.n)]
        del items[pos]
        return Seq.of(items, v.et)
    return Seq(sub(v.n, 1), lambda i: ite(lt(i, pos), v.at(i), v.at(add(i, 1))) if not same(pos, 0) else v.at(add(i, 1)), v.et)


@pat(r"^std::(list|deque)::(push_front|emplace_front)$")
def _vpushf(ex, e, o, a):
    v = ex.rd(o)
    ex.write(o, seq_insert(v, 0, ex.rd(a[0])))
    list_shift(ex, e, o, lambda q: add(q, 1))


@pat(r"^std::(vector|list|deque)::pop_back$")
def _vpop(ex, e, o, a):
    v = ex.rd(o)
    ex.oblige("pop_back on a non-empty container", gt(v.n, 0), line=e.get("line"))
    if isinstance(v.n, int):
        ex.write(o, Seq.of([v.at(i) for i in range(v.n - 1)], v.et))
    else:
        ex.write(o, Seq(sub(v.n, 1), v.f, v.et))
    n = v.n
    list_shift(ex, e, o, lambda q: ite(ge(q, n), sub(n, 1), ite(eq(q, sub(n, 1)), GONE, q)))


@pat(r"^std::(list|deque)::pop_front$")
def _vpopf(ex, e, o, a):
    v = ex.rd(o)
    ex.oblige("pop_front on a non-empty container", gt(v.n, 0), line=e.get("line"))
    ex.write(o, seq_erase(v, 0))
    list_shift(ex, e, o, lambda q: ite(eq(q, 0), GONE, sub(q, 1)))


@pat(r"^std::(vector|list|deque)::(front|back)$")
def _vfront(ex, e, o, a):
    v = ex.rd(o)
    ex.oblige("front/back on a non-empty container", gt(v.n, 0), line=e.get("line"))
    i = 0 if e["fn"].endswith("front") else sub(v.n, 1)
    if isinstance(o, LV):
        return alt_sub(o, ("i", i))
    return v.at(i)


@pat(r"^std::(vector|list|deque)::(resize)$")
def _vresize(ex, e, o, a):
    v = ex.rd(o)
    n = ex.rd(a[0])
    fill = ex.rd(a[1]) if len(a) > 1 else ex.zero(v.et)
    if isinstance(n, int) and isinstance(v.n, int) and n <= 64:
        ex.write(o, Seq.of([v.at(i) if i < v.n else fill for i in range(n)], v.et))
    else:
        old = v
        ex.write(o, Seq(n, lambda i: ite(lt(i, old.n), old.at(i), fill) if not same(old.n, 0) else fill, v.et))


@pat(r"^std::(vector|list|deque|map)::(reserve|shrink_to_fit|capacity)$")
def _vreserve(ex, e, o, a):
    return 0


@pat(r"^std::(vector|list|deque)::(begin|cbegin)$")
def _vbegin(ex, e, o, a):
    return Iter(o if isinstance(o, LV) else ex.temp(o), 0)


@pat(r"^std::(vector|list|deque)::(end|cend)$")
def _vend(ex, e, o, a):
    return Iter(o if isinstance(o, LV) else ex.temp(o), ex.rd(o).n)


@pat(r"^std::(vector|list|deque)::(rbegin|crbegin)$")
def _vrbegin(ex, e, o, a):
    return Iter(o, sub(ex.rd(o).n, 1), "seq", True)


@pat(r"^std::(vector|list|deque)::(rend|crend)$")
def _vrend(ex, e, o, a):
    return Iter(o, -1, "seq", True)


def list_shift(ex, e, o, f):
    """std::list: iterators to the other elements stay valid; f maps an old position to the new one."""
    if not e["fn"].startswith("std::list::") or not isinstance(o, LV):
        return
    for k, v in list(ex.st.store.items()):
        if isinstance(v, Iter) and v.kind == "seq" and isinstance(v.lv, LV) and v.lv.root == o.root and v.lv.acc == o.acc:
            if v.rev:
                raise Unsupported("reverse iterator kept across a change of the list")
            ex.st.store[k] = Iter(v.lv, f(v.pos), v.kind, v.rev)


GONE = -10 ** 9


@pat(r"^std::(vector|list|deque)::erase$")
def _verase(ex, e, o, a):
    it = ex.rd(a[0])
    v = ex.rd(o)
    if len(a) == 2:
        it2 = ex.rd(a[1])
        d = sub(it2.pos, it.pos)
        p = it.pos
        ex.write(o, Seq(sub(v.n, d), lambda i: ite(lt(i, p), v.at(i), v.at(add(i, d))), v.et))
        return Iter(o, it.pos)
    ex.oblige("erase at a valid position", and_(ge(it.pos, 0), lt(it.pos, v.n)), line=e.get("line"))
    ex.write(o, seq_erase(v, it.pos))
    p = it.pos
    list_shift(ex, e, o, lambda q: ite(lt(q, p), q, ite(eq(q, p), GONE, sub(q, 1))))
    return Iter(o, p)


@pat(r"^std::(vector|list|deque)::(insert|emplace)$")
def _vinsert(ex, e, o, a):
    it = ex.rd(a[0])
    v = ex.rd(o)
    if len(a) == 2:
        ex.oblige("insert at a valid position", and_(ge(it.pos, 0), le(it.pos, v.n)), line=e.get("line"))
        x, p = ex.rd(a[1]), it.pos
        ex.write(o, seq_insert(v, p, x))
        list_shift(ex, e, o, lambda q: ite(lt(q, p), q, add(q, 1)))
        return Iter(o, p)
    if len(a) == 3:
        b, en = ex.rd(a[1]), ex.rd(a[2])
        if isinstance(b, Iter):
            s = ex.rd(b.lv)
            m = sub(en.pos, b.pos)
            p, q = it.pos, b.pos
            ex.write(o, Seq(add(v.n, m), lambda i: ite(lt(i, p), v.at(i), ite(lt(i, add(p, m)), s.at(add(q, sub(i, p))), v.at(sub(i, m)))), v.et))
            return Iter(o, it.pos)
    raise Unsupported("insert form")


@pat(r"^std::list::splice$")
def _splice(ex, e, o, a):
    raise Unsupported("list splice")


@pat(r"^std::list::(remove)$")
def _lremove(ex, e, o, a):
    v = ex.rd(o)
    x = ex.rd(a[0])
    if isinstance(v.n, int):
        # keep those different from x; only when comparisons are decided
        items = []
        for i in range(v.n):
            c = simp(eq(v.at(i), x))
            if c is True:
                continue
            if c is not False:
                raise Unsupported("list remove")
            items.append(v.at(i))
        ex.write(o, Seq.of(items, v.et))
        return
    raise Unsupported("list remove")


ITER = r"^(std::(_List_const_iterator|_List_iterator|_Rb_tree_iterator|_Rb_tree_const_iterator|_Deque_iterator|reverse_iterator|_Bit_iterator|_Bit_const_iterator|_Bit_iterator_base|__detail::_Node_iterator)|__gnu_cxx::__normal_iterator|boost::cb_details::iterator)::"


@pat(ITER + r"ctor$")
def _ictor(ex, e, o, a):
    if not a:
        return Opaque("iterator")
    return ex.rd(a[0])


@pat(ITER + r"(operator\*|operator->)$")
def _ideref(ex, e, o, a):
    it = ex.rd(a[0] if o is None else o)
    r = ex.deref(it)
    if e["fn"].endswith("->"):
        if isinstance(r, LV):
            return Ptr("loc", lv=r)
        return Ptr("loc", lv=ex.temp(r))
    return r


@pat(ITER + r"(operator\+\+|operator--)$")
def _iinc(ex, e, o, a):
    lv = a[0] if o is None else o
    it = ex.rd(lv)
    d = 1 if "++" in e["fn"] else -1
    post = len(a) == 2 if o is None else len(a) == 1
    if it.kind == "map":
        it = map_order(ex, it)
    new = Iter(it.lv, add(it.pos, -d if it.rev else d), it.kind, it.rev)
    ex.write(lv, new)
    return it if post else lv


@pat(ITER + r"operator=$")
def _iassign(ex, e, o, a):
    ex.write(a[0], ex.rd(a[1]))
    return a[0]


@pat(ITER + r"(operator\+|operator-)$")
def _iadd(ex, e, o, a):
    l, r = (a[0], a[1]) if o is None else (o, a[0])
    return ex.binop(e["fn"][-1], ex.rd(l), ex.rd(r))


@pat(ITER + r"(operator\+=|operator-=)$")
def _iaddeq(ex, e, o, a):
    l, r = (a[0], a[1]) if o is None else (o, a[0])
    ex.write(l, ex.binop(e["fn"][-2], ex.rd(l), ex.rd(r)))
    return l


@pat(ITER + r"operator\[\]$")
def _iidx(ex, e, o, a):
    l, r = (a[0], a[1]) if o is None else (o, a[0])
    return ex.deref(ex.binop("+", ex.rd(l), ex.rd(r)))


@pat(r"^(__gnu_cxx|std|boost::cb_details)(::\w+)?::operator(==|!=|<|>|<=|>=|-)$")
def _icmp(ex, e, o, a):
    x, y = ex.rd(a[0]), ex.rd(a[1] if o is None else a[0])
    if isinstance(x, Opaque) or isinstance(y, Opaque):
        raise Unsupported("comparison of unset iterators")
    return ex.binop(e["op"], x, y)


@pat(r"^std::(distance)$")
def _dist(ex, e, o, a):
    return ex.binop("-", ex.rd(a[1]), ex.rd(a[0]))


@pat(r"^std::(advance)$")
def _adv(ex, e, o, a):
    it = ex.rd(a[0])
    ex.write(a[0], ex.binop("+", it, ex.rd(a[1])))


@pat(r"^std::(next|prev)$")
def _next(ex, e, o, a):
    it = ex.rd(a[0])
    d = ex.rd(a[1]) if len(a) > 1 else 1
    return ex.binop("+" if e["fn"].endswith("next") else "-", it, d)


@pat(r"^std::(begin|end|cbegin|cend)$")
def _stdbegin(ex, e, o, a):
    v = ex.rd(a[0])
    lv = a[0]
    return Iter(lv, 0 if "begin" in e["fn"] else v.n)


@pat(r"^std::(find|find_if|any_of|all_of|none_of|count|count_if)$")
def _algo(ex, e, o, a):
    nm = e["fn"].split("::")[-1]
    b, en = ex.rd(a[0]), ex.rd(a[1])
    if not (isinstance(b, Iter) and b.kind == "seq" and not b.rev):
        raise Unsupported(nm)
    p = ex.rd(a[2])
    s = ex.rd(b.lv)

    def test(i):
        x = s.at(i)
        if nm in ("find", "count"):
            return eq(x, p)
        elt = LV(b.lv.root, b.lv.acc + (("i", i),)) if isinstance(b.lv, LV) else x
        return tobool(ex.rd(ex.call_fun(p, [elt])))
    return search(ex, nm, b, en, test)


def search(ex, nm, b, en, test):
    from . import loops
    lo, hi = b.pos, en.pos
    if isinstance(lo, int) and isinstance(hi, int) and hi - lo <= 64:
        cs = [test(i) for i in range(lo, hi)]
        if nm in ("find", "find_if"):
            r = hi
            for i in reversed(range(lo, hi)):
                r = ite(cs[i - lo], i, r)
            return Iter(b.lv, r)
        if nm == "any_of":
            return or_(*cs)
        if nm == "all_of":
            return and_(*cs)
        if nm == "none_of":
            return not_(or_(*cs))
        r = 0
        for c in cs:
            r = add(r, ite(c, 1, 0))
        return r
    k = z3.Int(ex.new("k"))
    sv = ex.record
    t = zx(test(k))
    rng = z3.And(k >= zx(lo), k < zx(hi))
    if nm == "any_of":
        return z3.Exists([k], z3.And(rng, t))
    if nm == "none_of":
        return z3.ForAll([k], z3.Implies(rng, z3.Not(t)))
    if nm == "all_of":
        return z3.ForAll([k], z3.Implies(rng, t))
    if nm in ("find", "find_if"):
        p = z3.Int(ex.new("found"))
        at = z3.substitute(t, (k, p))
        ex.fact(z3.Implies(zx(lo) <= zx(hi), z3.And(p >= zx(lo), p <= zx(hi), z3.Implies(p < zx(hi), at),
                     z3.ForAll([k], z3.Implies(z3.And(k >= zx(lo), k < p), z3.Not(t))))))
        return Iter(b.lv, p)
    if nm in ("count", "count_if"):
        return loops.SUM(ex, lo, hi, k, z3.If(t, z3.IntVal(1), z3.IntVal(0)))
    raise Unsupported(nm)


@pat(r"^std::(fill)$")
def _fill(ex, e, o, a):
    b, en, v = ex.rd(a[0]), ex.rd(a[1]), ex.rd(a[2])
    s = ex.rd(b.lv)
    lo, hi = b.pos, en.pos
    ex.write(b.lv, Seq(s.n, lambda i: ite(and_(ge(i, lo), lt(i, hi)), v, s.at(i)), s.et))


@pat(r"^std::(accumulate)$")
def _accu(ex, e, o, a):
    from . import loops
    if len(a) != 3:
        raise Unsupported("accumulate with a functor")
    b, en, init = ex.rd(a[0]), ex.rd(a[1]), ex.rd(a[2])
    s = ex.rd(b.lv)
    k = z3.Int(ex.new("k"))
    return add(init, loops.SUM(ex, b.pos, en.pos, k, zx(s.at(k))))


@pat(r"^std::(for_each|transform|copy|sort|stable_sort|reverse|rotate|remove_if|remove|unique|iota|inner_product|copy_n)$")
def _algo2(ex, e, o, a):
    nm = e["fn"].split("::")[-1]
    if nm == "copy":
        b, en, d = ex.rd(a[0]), ex.rd(a[1]), ex.rd(a[2])
        if isinstance(b, Iter) and isinstance(d, Iter):
            s, t = ex.rd(b.lv), ex.rd(d.lv)
            n = sub(en.pos, b.pos)
            p, q = b.pos, d.pos
            sat = s.at if isinstance(s, Seq) else lambda i: s.at(i, 0)
            if isinstance(t, Mat):
                ex.write(d.lv, mat(t.r, t.c, lambda i, j: ite(and_(ge(i, q), lt(i, add(q, n))), sat(add(p, sub(i, q))), t.at(i, j))))
            else:
                ex.write(d.lv, Seq(t.n, lambda i: ite(and_(ge(i, q), lt(i, add(q, n))), sat(add(p, sub(i, q))), t.at(i)), t.et))
            return Iter(d.lv, add(q, n))
    if nm == "reverse":
        b, en = ex.rd(a[0]), ex.rd(a[1])
        s = ex.rd(b.lv)
        lo, hi = b.pos, en.pos
        ex.write(b.lv, Seq(s.n, lambda i: ite(and_(ge(i, lo), lt(i, hi)), s.at(sub(sub(add(lo, hi), 1), i)), s.at(i)), s.et))
        return None
    raise Unsupported("algorithm " + nm)


@pat(r"^std::_Bit_reference::(operator_conv|operator bool)$")
def _bitconv(ex, e, o, a):
    return ex.rd(o)


@pat(r"^std::_Bit_reference::operator=$")
def _bitassign(ex, e, o, a):
    ex.write(a[0], ex.rd(a[1]))
    return a[0]


@pat(r"^std::_Bit_reference::(flip)$")
def _bitflip(ex, e, o, a):
    ex.write(o, not_(ex.rd(o)))


# ---------------------------------------------------------------- pairs
@pat(r"^std::(pair::ctor|make_pair)$")
def _pair_(ex, e, o, a):
    if not a:
        t = ptype(e["t"])
        return ex.default_value(t)
    if len(a) == 1:
        v = ex.rd(a[0])
        return v
    t = ptype(e["t"])
    x, y = ex.rd(a[0]), ex.rd(a[1])
    if t.k == "pair":
        x, y = ex.coerce(x, t.a[0]), ex.coerce(y, t.a[1])
    return Struct("std::pair", {"first": x, "second": y})


@pat(r"^std::pair::operator=$")
def _pairass(ex, e, o, a):
    v = ex.rd(a[1])
    if isinstance(v, Struct):
        v = Struct(v.cls, {k: ex.rd(x) for k, x in v.fields.items()})
    ex.write(a[0], v)
    return a[0]


# ---------------------------------------------------------------- maps
@pat(r"^std::(map|set|unordered_map)::ctor$")
def _mctor(ex, e, o, a):
    t = ptype(e["t"])
    if a:
        v = ex.rd(a[0])
        if isinstance(v, MapV):
            return v
    return ex.empty_map(t)


@pat(r"^std::(map|set|unordered_map)::operator=$")
def _massign(ex, e, o, a):
    ex.write(a[0], ex.rd(a[1]))
    return a[0]


@pat(r"^std::(map|unordered_map)::operator\[\]$")
def _midx(ex, e, o, a):
    m, q = (a[0], a[1]) if o is None else (o, a[0])
    q = ex.keyof(ex.rd(q))
    v = ex.rd(m)
    h = v.has(q)
    if h is not True:
        z = ex.zero(v.vt)
        oldget, oldhas = v.get, v.has
        def get(k):
            c = and_(eq(k, q), not_(h))
            if c is False:
                return oldget(k)
            return ite(c, z, oldget(k))
        sz = add(v.size, ite(h, 0, 1)) if v.size is not None else None
        ex.write(m, MapV(lambda k: or_(eq(k, q), oldhas(k)), get, v.kt, v.vt, sz))
    return LV(m.root, m.acc + (("k", q),))


@pat(r"^std::(map|unordered_map)::at$")
def _mat_(ex, e, o, a):
    q = ex.keyof(ex.rd(a[0]))
    v = ex.rd(o)
    throw_if(ex, not_(v.has(q)), Opaque("std::out_of_range"))
    return LV(o.root, o.acc + (("k", q),)) if isinstance(o, LV) else v.get(q)


@pat(r"^std::(map|set|unordered_map)::(find)$")
def _mfind(ex, e, o, a):
    q = ex.keyof(ex.rd(a[0]))
    v = ex.rd(o)
    return Iter(o if isinstance(o, LV) else ex.temp(o), (v.has(q), q), "map")


@pat(r"^std::(map|set|unordered_map)::(end|cend)$")
def _mend(ex, e, o, a):
    v = ex.rd(o)
    return Iter(o if isinstance(o, LV) else ex.temp(o), (False, default_key(v)), "map")


def default_key(v):
    return "" if v.kt.k in ("str", "cstr") else Fraction(0) if v.kt.k == "real" else 0


@pat(r"^std::(map|set|unordered_map)::(begin|cbegin)$")
def _mbegin(ex, e, o, a):
    v = ex.rd(o)
    return Iter(o if isinstance(o, LV) else ex.temp(o), 0, map_enum(ex, v)[0])


def map_enum(ex, v):
    """(iterator kind, number of entries, i -> i-th key, key -> its position) of a map value: the enumeration in key order
    is a function of the set of its keys"""
    from . import loops
    q = z3.Const("q$enum", key_sort(ex, v))
    h, ps = loops.canon(z3.simplify(zx(v.has(q))), (q,))
    srt = {"String": "str", "Real": "real", "Int": "int"}[q.sort().name()]
    n = v.size if v.size is not None else ex.uf("entries$" + h, ps, "int")
    ordf = lambda i: ex.uf("key$" + h, [zx(i)] + ps, srt)
    pos = lambda k: ex.uf("rank$" + h, [zx(k)] + ps, "int")
    i, j = z3.Int("i$enum"), z3.Int("j$enum")
    kind = "mapord|" + h + "|" + "|".join(p.sexpr() for p in ps)
    if kind not in ex.enums:
        ex.enums.add(kind)
        ex.fact(zx(n) >= 0)
        ex.fact(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < zx(n)), z3.And(zx(v.has(ordf(i))), pos(ordf(i)) == i)), patterns=[ordf(i)]))
        ex.fact(z3.ForAll([q], z3.Implies(zx(v.has(q)), z3.And(pos(q) >= 0, pos(q) < zx(n), ordf(pos(q)) == q)), patterns=[pos(q)]))
        if srt != "str":
            ex.fact(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < zx(n)), ordf(i) < ordf(j)), patterns=[z3.MultiPattern(ordf(i), ordf(j))]))
    return kind, n, ordf, pos


def map_order(ex, it):
    """a search result (or end) as a position in the enumeration"""
    c, q = it.pos
    kind, n, ordf, pos = map_enum(ex, ex.rd(it.lv))
    return Iter(it.lv, ite(c, pos(q), n), kind)


@pat(r"^std::(map|set|unordered_map)::(count|contains)$")
def _mcount(ex, e, o, a):
    q = ex.keyof(ex.rd(a[0]))
    return ite(ex.rd(o).has(q), 1, 0)


@pat(r"^std::(map|set|unordered_map)::erase$")
def _merase(ex, e, o, a):
    x = ex.rd(a[0])
    v = ex.rd(o)
    if isinstance(x, Iter):
        c, q = x.pos
        ex.oblige("erase of an existing map entry", c, line=e.get("line"))
    else:
        q = ex.keyof(x)
        c = v.has(q)
    sz = sub(v.size, ite(v.has(q), 1, 0)) if v.size is not None else None
    ex.write(o, MapV(lambda k: and_(ne(k, q), v.has(k)), v.get, v.kt, v.vt, sz))
    if isinstance(x, Iter):
        return Opaque("iterator")
    return ite(c, 1, 0)


@pat(r"^std::(map|unordered_map)::(insert|emplace)$")
def _minsert(ex, e, o, a):
    v = ex.rd(o)
    if isinstance(v, Opaque):
        return Opaque("insertion")
    if len(a) == 2 and not isinstance(ex.rd(a[0]), Iter):
        p = Struct("std::pair", {"first": ex.rd(a[0]), "second": ex.rd(a[1])})
    else:
        p = ex.rd(a[-1])
    q, x = ex.keyof(ex.rd(p.get("first"))), ex.rd(p.get("second"))
    h = v.has(q)
    sz = add(v.size, ite(h, 0, 1)) if v.size is not None else None
    ex.write(o, MapV(lambda k: or_(eq(k, q), v.has(k)), lambda k: ite(and_(eq(k, q), not_(h)), x, v.get(k)), v.kt, v.vt, sz))
    return Struct("std::pair", {"first": Iter(o, (True, q), "map"), "second": not_(h)})


@pat(r"^std::set::(insert|emplace)$")
def _sinsert(ex, e, o, a):
    v = ex.rd(o)
    q = ex.keyof(ex.rd(a[-1]))
    h = v.has(q)
    sz = add(v.size, ite(h, 0, 1)) if v.size is not None else None
    ex.write(o, MapV(lambda k: or_(eq(k, q), v.has(k)), v.get, v.kt, v.vt, sz))
    return Struct("std::pair", {"first": Iter(o, (True, q), "map"), "second": not_(h)})


# ---------------------------------------------------------------- exceptions, pointers
@pat(r"^std::(exception|runtime_error|logic_error|invalid_argument|out_of_range|domain_error|length_error|range_error|bad_alloc)::ctor$")
def _excctor(ex, e, o, a):
    cls = e["fn"][:-6]
    return Struct(cls, {"__what": ex.rd(a[0]) if a and is_scalar(ex.rd(a[0])) else ""})


@pat(r"^std::(exception|runtime_error|logic_error|invalid_argument|out_of_range)::what$")
def _excwhat(ex, e, o, a):
    v = ex.rd(o)
    try:
        return v.get("__what")
    except Unsupported:
        return ex.fresh("str", "what")


@pat(r"^std::(\w+)::dtor$")
def _dtor(ex, e, o, a):
    return None


@pat(r"^(std|boost)::(shared_ptr|unique_ptr|__shared_ptr|__shared_ptr_access)::(operator->|operator\*|get)$")
def _sp(ex, e, o, a):
    p = ex.rd(a[0] if o is None else o)
    if e["fn"].endswith("*"):
        return ex.deref(p)
    return p


@pat(r"^(std|boost)::(shared_ptr|unique_ptr|__shared_ptr)::(ctor)$")
def _spctor(ex, e, o, a):
    return ex.rd(a[0]) if a else NULL


@pat(r"^(std|boost)::(shared_ptr|unique_ptr|__shared_ptr)::(operator=|reset)$")
def _spass(ex, e, o, a):
    if e["fn"].endswith("reset"):
        ex.write(o, ex.rd(a[0]) if a else NULL)
        return None
    ex.write(a[0], ex.rd(a[1]))
    return a[0]


@pat(r"^(std|boost)::(shared_ptr|unique_ptr|__shared_ptr)::(operator_conv|operator bool)$")
def _spbool(ex, e, o, a):
    return tobool(ex.rd(o))


@pat(r"^std::make_shared$")
def _mkshared(ex, e, o, a):
    t = ptype(e["t"])  # shared_ptr<X>
    cls = t.a[0].s
    cands = [f for k, f in ex.tu.fns.items() if f["qn"].endswith("::ctor") and strip_cv(f.get("cls", "")) == cls
             and len(f["params"]) == len(a)]
    if not cands:
        raise Unsupported("make_shared of " + cls)
    v = ex.construct(cands[0], cls, a)
    root = ("heap", ex.new())
    ex.st.store[root] = v
    return Ptr("loc", lv=LV(root))


@pat(r"^boost::(bind|function\d?::ctor|arg::ctor|_bi::bind_t::ctor|_bi::list\d::ctor)$")
def _bind(ex, e, o, a):
    nm = e["fn"]
    vals = [ex.rd(x) for x in a]
    if nm == "boost::bind":
        f = vals[0]
        if isinstance(f, Fun) and f.fn is not None:
            g = Fun(fn=f.fn)
            g.bound = tuple(v for v in vals[1:] if isinstance(v, Ptr))
            return g
        return Opaque("bind")
    if nm.startswith("boost::arg"):
        return Opaque("placeholder")
    return vals[0] if vals else Opaque("function")


@pat(r"^(boost::function\d?|std::function)::(operator\(\)|operator=|empty|operator!=|clear|swap)$")
def _bfun(ex, e, o, a):
    if e["fn"].endswith("operator="):
        ex.write(a[0], ex.rd(a[1]))
        return a[0]
    if e["fn"].endswith("operator()"):
        f = ex.rd(a[0] if o is None else o)
        if isinstance(f, Fun):
            return ex.call_fun(f, a[1:])
    return Opaque("function")


@lib("gettimeofday", "clock", "time", "usleep", "getenv", "std::clock", "std::time", "dlopen", "dlerror", "dlsym", "dlclose",
     "system", "printf", "fprintf", "std::printf", "puts", "srand", "rand")
def _sys(ex, e, o, a):
    fn = e["fn"].split("::")[-1]
    if fn == "clock" and getattr(ex, "clock_value", None) is not None:
        return ex.clock_value
    if fn in ("clock", "time", "rand"):
        return ex.fresh("int", fn)
    if fn == "gettimeofday":
        p = ex.rd(a[0])
        tv = ex.deref(p)
        s, u = ex.fresh("int", "tv_sec"), ex.fresh("int", "tv_usec")
        if getattr(ex, "usec_value", None) is not None:
            ex.fact(s * 1000000 + u == ex.usec_value)
        ex.fact(z3.And(s >= 0, u >= 0, u < 1000000))
        ex.write(tv, Struct("timeval", {"tv_sec": s, "tv_usec": u}))
        return 0
    return Opaque(fn)


@pat(r"^timeval::ctor$")
def _tv(ex, e, o, a):
    if a:
        return ex.rd(a[0])
    return Struct("timeval", {}, lambda f, n=ex.new("tv"): z3.Int(n + "." + f))


@pat(r"^std::vector::flip$")
def _vflip(ex, e, o, a):
    v = ex.rd(o)
    f = v.f
    ex.write(o, Seq(v.n, lambda i: not_(f(i)), v.et))


@lib("strlen", "std::strlen")
def _strlen(ex, e, o, a):
    v = cstr(ex, a[0])
    if isinstance(v, str):
        return len(v)
    if is_str(v):
        return z3.Length(v)
    raise Unsupported("strlen")


@pat(r"^std::operator[|&^~]$")
def _openmode(ex, e, o, a):
    """std::ios_base flags: which ones is not modelled"""
    return Opaque("openmode")
