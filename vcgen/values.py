"""Value domain of the verification-condition generator.

Scalars are python int / Fraction / bool when concrete, z3 expressions otherwise.  C++ integers are mathematical
integers, C++ doubles are mathematical reals (both are stated assumptions of every proof)."""
from fractions import Fraction
import itertools
import z3

_cnt = itertools.count()


def fresh_id():
    return next(_cnt)


class Unsupported(Exception):
    """The construct is outside what the generator models: the obligation stays undecided (never a violation)."""


def is_sym(x):
    return isinstance(x, z3.ExprRef)


def is_num(x):
    return isinstance(x, (int, Fraction)) and not isinstance(x, bool)


def is_scalar(x):
    return isinstance(x, (int, Fraction, bool, str)) or is_sym(x)


def is_real(x):
    return isinstance(x, Fraction) or (is_sym(x) and z3.is_real(x))


def is_boolv(x):
    return isinstance(x, bool) or (is_sym(x) and z3.is_bool(x))


def _const(x):
    """z3 numeral -> python constant."""
    if is_sym(x):
        if z3.is_int_value(x):
            return x.as_long()
        if z3.is_rational_value(x):
            return Fraction(x.numerator_as_long(), x.denominator_as_long())
        if z3.is_true(x):
            return True
        if z3.is_false(x):
            return False
        if z3.is_string_value(x):
            return x.as_string()
    return x


def simp(x):
    if is_sym(x):
        return _const(z3.simplify(x))
    return x


def zx(x):
    """python/z3 scalar -> z3"""
    if is_sym(x):
        return x
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, Fraction):
        return z3.RealVal(str(x.numerator) + "/" + str(x.denominator))
    if isinstance(x, str):
        return z3.StringVal(x)
    raise Unsupported("scalar expected, got %r" % (type(x),))


def toreal(x):
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    if isinstance(x, Fraction):
        return x
    if is_sym(x):
        if z3.is_int(x):
            return z3.ToReal(x)
        if z3.is_bool(x):
            return z3.If(x, z3.RealVal(1), z3.RealVal(0))
        return x
    raise Unsupported("real expected: %r" % (x,))


def toint(x):
    """C++ conversion to an integer type (truncation)."""
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return x
    if isinstance(x, Fraction):
        return int(x)
    if is_sym(x):
        if z3.is_bool(x):
            return z3.If(x, z3.IntVal(1), z3.IntVal(0))
        if z3.is_real(x):
            if x.decl().kind() == z3.Z3_OP_TO_REAL:
                return x.arg(0)
            return z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))
        return x
    raise Unsupported("int expected: %r" % (x,))


def tobool(x):
    if isinstance(x, bool):
        return x
    if is_num(x):
        return x != 0
    if is_sym(x):
        if z3.is_bool(x):
            return x
        if z3.is_int(x) or z3.is_real(x):
            # If(c,1,0) != 0  -> c
            if z3.is_app_of(x, z3.Z3_OP_ITE):
                a, b = _const(x.arg(1)), _const(x.arg(2))
                if is_num(a) and is_num(b):
                    if a != 0 and b == 0:
                        return x.arg(0)
                    if a == 0 and b != 0:
                        return z3.Not(x.arg(0))
            return x != 0
    if isinstance(x, Ptr):
        return not_(ptr_eq(x, NULL))
    raise Unsupported("bool expected: %r" % (x,))


def _pair(a, b):
    if isinstance(a, bool):
        a = int(a)
    if isinstance(b, bool):
        b = int(b)
    if is_sym(a) and z3.is_bool(a):
        a = toint(a)
    if is_sym(b) and z3.is_bool(b):
        b = toint(b)
    if is_real(a) or is_real(b):
        a, b = toreal(a), toreal(b)
    return a, b


def add(a, b):
    a, b = _pair(a, b)
    if not is_sym(a) and not is_sym(b):
        return a + b
    if not is_sym(a) and a == 0:
        return b
    if not is_sym(b) and b == 0:
        return a
    return zx(a) + zx(b)


def sub(a, b):
    a, b = _pair(a, b)
    if not is_sym(a) and not is_sym(b):
        return a - b
    if not is_sym(b) and b == 0:
        return a
    if is_sym(a) and is_sym(b) and a.eq(b):
        return Fraction(0) if is_real(a) else 0
    return zx(a) - zx(b)


def neg(a):
    if isinstance(a, bool):
        a = int(a)
    if not is_sym(a):
        return -a
    return -a


def mul(a, b):
    a, b = _pair(a, b)
    if not is_sym(a) and not is_sym(b):
        return a * b
    for x, y in ((a, b), (b, a)):
        if not is_sym(x):
            if x == 0:
                return Fraction(0) if is_real(x) else 0
            if x == 1:
                return y
    return zx(a) * zx(b)


def div(a, b):
    """real division"""
    a, b = toreal(a), toreal(b)
    if not is_sym(b):
        if b == 0:
            # division by zero is guarded by an obligation where it matters; keep it uninterpreted
            return z3.Function("div0", z3.RealSort(), z3.RealSort())(zx(a))
        if not is_sym(a):
            return a / b
        if b == 1:
            return a
        return zx(a) * zx(1 / b)
    return zx(a) / zx(b)


def idiv(a, b):
    """C++ integer division (truncating)"""
    if not is_sym(a) and not is_sym(b):
        if b == 0:
            raise Unsupported("integer division by zero")
        q = abs(a) // abs(b)
        return q if (a >= 0) == (b >= 0) else -q
    if not is_sym(b) and b == 1:
        return a
    a, b = zx(a), zx(b)
    if not is_sym(_const(b)) and _const(b) > 0:
        return z3.If(a >= 0, a / b, -((-a) / b))
    return z3.If(a >= 0, a / b, -((-a) / b))


def imod(a, b):
    if not is_sym(a) and not is_sym(b):
        return a - b * idiv(a, b)
    a, b = zx(a), zx(b)
    return z3.If(a >= 0, a % b, -((-a) % b))


def eq(a, b):
    if isinstance(a, (Ptr,)) or isinstance(b, (Ptr,)):
        return ptr_eq(a, b)
    if not is_sym(a) and not is_sym(b):
        return a == b
    if is_boolv(a) and is_boolv(b):
        if isinstance(a, bool):
            return b if a else not_(b)
        if isinstance(b, bool):
            return a if b else not_(a)
        return a == b
    if isinstance(a, str) or isinstance(b, str) or (is_sym(a) and z3.is_string(a)):
        return zx(a) == zx(b)
    a, b = _pair(a, b)
    if is_sym(a) and is_sym(b) and a.eq(b):
        return True
    return zx(a) == zx(b)


def ne(a, b):
    return not_(eq(a, b))


def lt(a, b):
    a, b = _pair(a, b)
    if not is_sym(a) and not is_sym(b):
        return a < b
    if is_sym(a) and is_sym(b) and a.eq(b):
        return False
    return zx(a) < zx(b)


def le(a, b):
    a, b = _pair(a, b)
    if not is_sym(a) and not is_sym(b):
        return a <= b
    if is_sym(a) and is_sym(b) and a.eq(b):
        return True
    return zx(a) <= zx(b)


def gt(a, b):
    return lt(b, a)


def ge(a, b):
    return le(b, a)


def and_(*xs):
    out = []
    for x in xs:
        if isinstance(x, (list, tuple)):
            x = and_(*x)
        if x is True:
            continue
        if x is False:
            return False
        out.append(x)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return z3.And(*out)


def or_(*xs):
    out = []
    for x in xs:
        if isinstance(x, (list, tuple)):
            x = or_(*x)
        if x is False:
            continue
        if x is True:
            return True
        out.append(x)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return z3.Or(*out)


def not_(x):
    if isinstance(x, bool):
        return not x
    if z3.is_not(x):
        return x.arg(0)
    return z3.Not(x)


def implies(a, b):
    return or_(not_(a), b)


def ite_s(c, a, b):
    """scalar if-then-else"""
    if c is True:
        return a
    if c is False:
        return b
    if is_boolv(a) and is_boolv(b):
        if a is True and b is False:
            return c
        if a is False and b is True:
            return not_(c)
        if isinstance(a, bool) and isinstance(b, bool):
            return a
        if is_sym(a) and is_sym(b) and a.eq(b):
            return a
        return z3.If(c, zx(a), zx(b))
    if isinstance(a, str) or isinstance(b, str):
        if a is b or (isinstance(a, str) and isinstance(b, str) and a == b):
            return a
        return z3.If(c, zx(a), zx(b))
    if is_sym(a) and z3.is_string(a):
        return z3.If(c, a, zx(b))
    a, b = _pair(a, b)
    if not is_sym(a) and not is_sym(b) and a == b:
        return a
    if is_sym(a) and is_sym(b) and a.eq(b):
        return a
    return z3.If(c, zx(a), zx(b))


# ---------------------------------------------------------------------------------------------- compound values
class Value:
    pass


class Mat(Value):
    """Matrix/vector value: rows, cols, and the entry function.  `alg` is an optional symbolic matrix-ring term."""
    __slots__ = ("r", "c", "f", "data", "alg", "mid", "quat", "isb")

    def __init__(self, r, c, f=None, data=None, alg=None):
        self.r, self.c, self.f, self.data = r, c, f, data
        self.alg = alg
        self.mid = fresh_id()
        self.isb = False

    def at(self, i, j=0):
        # the only valid index of a dimension of size one is 0
        if isinstance(self.c, int) and self.c == 1:
            j = 0
        if isinstance(self.r, int) and self.r == 1:
            i = 0
        if self.data is not None:
            if isinstance(i, int) and isinstance(j, int):
                v = self.data.get((i, j))
                if v is None:
                    return z3.Const("oob!%d" % fresh_id(), z3.RealSort())
                return v
            res = None
            ks = sorted(self.data)
            for (a, b) in reversed(ks):
                v = self.data[(a, b)]
                if res is None:
                    res = v
                else:
                    res = ite(and_(eq(i, a), eq(j, b)), v, res)
            if res is None:
                return z3.Const("oob!%d" % fresh_id(), z3.RealSort())
            return res
        return self.f(i, j)

    def __repr__(self):
        return "Mat(%s x %s)" % (self.r, self.c)


MAXC = 10


def mat(r, c, f, alg=None):
    """Build a matrix; small concrete shapes are materialised."""
    if isinstance(r, int) and isinstance(c, int) and 0 <= r * c <= 64:
        return Mat(r, c, None, {(i, j): f(i, j) for i in range(r) for j in range(c)}, alg)
    memo = {}

    def g(i, j):
        k = (i if not is_sym(i) else ("z", i.get_id()), j if not is_sym(j) else ("z", j.get_id()))
        if k in memo:
            return memo[k][0]
        v = f(i, j)
        memo[k] = (v, i, j)
        return v
    return Mat(r, c, g, None, alg)


class Seq(Value):
    """std::vector / std::list / std::deque / array value."""
    __slots__ = ("n", "f", "et")

    def __init__(self, n, f, et=None):
        self.n, self.f, self.et = n, f, et

    @staticmethod
    def of(items, et=None):
        items = list(items)

        def f(i):
            i = simp(i)
            if isinstance(i, int):
                if 0 <= i < len(items):
                    return items[i]
                raise Unsupported("sequence index out of range")
            r = None
            for k in reversed(range(len(items))):
                r = items[k] if r is None else ite(eq(i, k), items[k], r)
            if r is None:
                k = et.k if et is not None else None
                if k in ("int", "uint", "ptr"):
                    return z3.Int("oob!%d" % fresh_id()) if k != "ptr" else Ptr("opq", ident=z3.Int("oob!%d" % fresh_id()), cls=et.a[0])
                if k == "real":
                    return z3.Real("oob!%d" % fresh_id())
                if k == "bool":
                    return z3.Bool("oob!%d" % fresh_id())
                if k == "str":
                    return z3.String("oob!%d" % fresh_id())
                raise Unsupported("read of an empty sequence")
            return r
        s = Seq(len(items), f, et)
        return s

    def at(self, i):
        return self.f(i)


class MapV(Value):
    """std::map / std::set value: has(k), get(k).  keys are scalars."""
    __slots__ = ("has", "get", "kt", "vt", "size", "order")

    def __init__(self, has, get, kt=None, vt=None, size=None, order=None):
        self.has, self.get, self.kt, self.vt, self.size = has, get, kt, vt, size
        self.order = order  # name of the (uninterpreted) enumeration used when the map is iterated


class Struct(Value):
    __slots__ = ("cls", "fields", "mk")

    def __init__(self, cls, fields, mk=None):
        self.cls, self.fields, self.mk = cls, fields, mk

    def get(self, n):
        if n in self.fields:
            return self.fields[n]
        if self.mk is not None:
            v = self.mk(n)
            if v is not None:
                self.fields[n] = v  # lazily created symbolic field: the same for every copy
                return v
        raise Unsupported("no field %s in %s" % (n, self.cls))

    def with_(self, n, v):
        d = dict(self.fields)
        d[n] = v
        return Struct(self.cls, d, self.mk)

    def __repr__(self):
        return "Struct(%s)" % self.cls


class Ptr(Value):
    """kind 'null' | 'loc' (lv) | 'opq' (integer identity, class)"""
    __slots__ = ("kind", "lv", "ident", "cls")

    def __init__(self, kind, lv=None, ident=None, cls=None):
        self.kind, self.lv, self.ident, self.cls = kind, lv, ident, cls

    def __repr__(self):
        return "Ptr(%s,%s)" % (self.kind, self.lv if self.kind == "loc" else self.ident)


NULL = Ptr("null")


def ptr_eq(a, b):
    if isinstance(a, int) and not isinstance(a, bool) and a == 0:
        a = NULL
    if isinstance(b, int) and not isinstance(b, bool) and b == 0:
        b = NULL
    if not isinstance(a, Ptr) or not isinstance(b, Ptr):
        raise Unsupported("pointer comparison")
    for x, y in ((a, b), (b, a)):
        if x.kind == "alt":
            c, u, v = x.lv
            return ite_s(c, ptr_eq(u, y), ptr_eq(v, y))
    if a.kind == "null" and b.kind == "null":
        return True
    if a.kind == "null":
        a, b = b, a
    if b.kind == "null":
        if a.kind == "loc":
            return False
        return eq(a.ident, 0)
    if a.kind == "opq" and b.kind == "opq":
        return eq(a.ident, b.ident)
    if a.kind == "loc" and b.kind == "loc":
        if a.lv.root != b.lv.root or len(a.lv.acc) != len(b.lv.acc):
            return False
        cs = []
        for x, y in zip(a.lv.acc, b.lv.acc):
            if x[0] != y[0]:
                return False
            if x[0] == "f":
                if x[1] != y[1]:
                    return False
            else:
                for p, q in zip(x[1:], y[1:]):
                    if is_scalar(p):
                        cs.append(eq(p, q))
        return and_(*cs)
    return False


class LV:
    """Location: root key + accessors ('f',name) ('i',idx) ('k',key) ('e',i,j) ('blk',i0,j0,r,c) ('T',) ('diag',)"""
    __slots__ = ("root", "acc", "ty")

    def __init__(self, root, acc=(), ty=None):
        self.root, self.acc, self.ty = root, tuple(acc), ty

    def sub(self, *a):
        return LV(self.root, self.acc + (tuple(a),))

    def __repr__(self):
        return "LV(%s%s)" % (self.root, "".join("." + str(a) for a in self.acc))


class Iter(Value):
    """Iterator: container location + position (sequence) or key (map)."""
    __slots__ = ("lv", "pos", "kind", "rev")

    def __init__(self, lv, pos, kind="seq", rev=False):
        self.lv, self.pos, self.kind, self.rev = lv, pos, kind, rev


class Stream(Value):
    __slots__ = ("text",)

    def __init__(self, text=""):
        self.text = text


class Fun(Value):
    __slots__ = ("node", "caps", "fn", "bound")

    def __init__(self, node=None, caps=None, fn=None, bound=()):
        self.node, self.caps, self.fn, self.bound = node, caps, fn, bound


class SigV(Value):
    """A dynamic-graph signal: `sid` names it, `args` parameterise it (pointer identity), `over` is a constant value."""
    __slots__ = ("ty", "sid", "args", "over", "deps", "plugged")

    def __init__(self, ty, sid, args=(), over=None, plugged=None):
        self.ty, self.sid, self.args, self.over, self.plugged = ty, sid, args, over, plugged


class Opaque(Value):
    """A value nothing is known about and nothing depends on (loggers, streams, commands)."""
    __slots__ = ("what",)

    def __init__(self, what=""):
        self.what = what

    def __repr__(self):
        return "Opaque(%s)" % self.what


class Unmergeable(Exception):
    pass


def same(a, b):
    if a is b:
        return True
    if is_scalar(a) and is_scalar(b):
        if is_sym(a) and is_sym(b):
            return a.eq(b)
        if is_sym(a) or is_sym(b):
            return False
        return type(a) == type(b) and a == b
    if isinstance(a, LV) and isinstance(b, LV):
        return a.root == b.root and len(a.acc) == len(b.acc) and all(
            x[0] == y[0] and len(x) == len(y) and all(same(p, q) if is_scalar(p) else p == q for p, q in zip(x[1:], y[1:]))
            for x, y in zip(a.acc, b.acc))
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        if a.kind != b.kind:
            return False
        if a.kind == "null":
            return True
        if a.kind == "loc":
            return same(a.lv, b.lv)
        return same(a.ident, b.ident)
    return False


def ite(c, a, b):
    """General if-then-else on values."""
    if c is True:
        return a
    if c is False:
        return b
    if a is b:
        return a
    if is_scalar(a) and is_scalar(b):
        return ite_s(c, a, b)
    if same(a, b):
        return a
    if isinstance(a, Mat) and isinstance(b, Mat):
        r, cc = ite(c, a.r, b.r), ite(c, a.c, b.c)
        if isinstance(r, int) and isinstance(cc, int):
            m = mat(r, cc, lambda i, j: ite(c, a.at(i, j), b.at(i, j)))
        else:
            # read each side only where it exists, when shapes are concrete and differ
            def f(i, j):
                def g(m):
                    if m.data is not None and isinstance(i, int) and isinstance(j, int) and (i, j) not in m.data:
                        return z3.Const("oob!%d" % fresh_id(), z3.RealSort())
                    return m.at(i, j)
                return ite(c, g(a), g(b))
            m = mat(r, cc, f)
        return m
    if isinstance(a, Seq) and isinstance(b, Seq):
        def f(i):
            # avoid reading a concrete sequence outside its range
            try:
                x = a.f(i)
            except Unsupported:
                return b.f(i)
            try:
                y = b.f(i)
            except Unsupported:
                return x
            return ite(c, x, y)
        return Seq(ite(c, a.n, b.n), f, a.et or b.et)
    if isinstance(a, MapV) and isinstance(b, MapV):
        sz = None
        if a.size is not None and b.size is not None:
            sz = ite(c, a.size, b.size)
        return MapV(lambda k: ite(c, a.has(k), b.has(k)), lambda k: ite(c, a.get(k), b.get(k)), a.kt, a.vt, sz)
    if isinstance(a, Struct) and isinstance(b, Struct) and a.cls == b.cls:
        d = {}
        for n in set(a.fields) | set(b.fields):
            d[n] = ite(c, a.get(n), b.get(n))
        mk = a.mk
        if a.mk is not b.mk and (a.mk is not None or b.mk is not None):
            def mk(n, a=a, b=b):
                return ite(c, a.get(n), b.get(n))
        return Struct(a.cls, d, mk)
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        if a.kind in ("null", "opq") and b.kind in ("null", "opq"):
            return Ptr("opq", ident=ite(c, 0 if a.kind == "null" else a.ident, 0 if b.kind == "null" else b.ident),
                       cls=a.cls or b.cls)
        if a.kind == "loc" and b.kind == "loc":
            try:
                return Ptr("loc", lv=ite_lv(c, a.lv, b.lv))
            except Unmergeable:
                return Ptr("alt", lv=(c, a, b))
        return Ptr("alt", lv=(c, a, b))
    if isinstance(a, LV) and isinstance(b, LV):
        try:
            return ite_lv(c, a, b)
        except Unmergeable:
            return LV("alt", (c, a, b))
    if isinstance(a, Iter) and isinstance(b, Iter) and a.kind == b.kind and a.rev == b.rev:
        if same(a.lv, b.lv):
            if isinstance(a.pos, tuple):
                return Iter(a.lv, (ite(c, a.pos[0], b.pos[0]), ite(c, a.pos[1], b.pos[1])), a.kind, a.rev)
            return Iter(a.lv, ite(c, a.pos, b.pos), a.kind, a.rev)
        raise Unmergeable("iterators")
    if isinstance(a, Stream) and isinstance(b, Stream):
        if a.text is None or b.text is None:
            return Stream(None)
        return Stream(ite(c, a.text, b.text))
    if isinstance(a, SigV) and isinstance(b, SigV) and a.sid == b.sid:
        if a.over is None and b.over is None:
            pa, pb = a.plugged, b.plugged
            if pa is None or pb is None or same(pa, pb):
                return a
        raise Unmergeable("signals")
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        return Opaque("merged")
    raise Unmergeable("%r / %r" % (type(a), type(b)))


def ite_lv(c, a, b):
    if a.root != b.root or len(a.acc) != len(b.acc):
        raise Unmergeable("locations")
    acc = []
    for x, y in zip(a.acc, b.acc):
        if x[0] != y[0] or len(x) != len(y):
            raise Unmergeable("locations")
        if x[0] == "f":
            if x[1] != y[1]:
                raise Unmergeable("locations")
            acc.append(x)
        else:
            acc.append((x[0],) + tuple(ite(c, p, q) if is_scalar(p) else (p if p == q else _um()) for p, q in zip(x[1:], y[1:])))
    return LV(a.root, acc)


def _um():
    raise Unmergeable("locations")
