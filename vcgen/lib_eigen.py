"""Contracts of the Eigen operations used by the code under verification (assumed; every shape requirement Eigen only
asserts in debug builds is an obligation of the caller here)."""
import re
from fractions import Fraction
import z3
from .values import *
from .ctypes_ import ptype, T, strip_cv, split_args
from .interp import lib, LIB, LIBPAT, PathEnd, LV
from .lib_std import pat, rfun, absv, throw_if


def view(ex, o, *acc):
    if isinstance(o, LV):
        if o.root == "alt":
            c, x, y = o.acc
            return LV("alt", (c, view(ex, x, *acc), view(ex, y, *acc)))
        return LV(o.root, o.acc + (tuple(acc),))
    return ex.get_acc(o, tuple(acc))


def M(ex, x):
    v = ex.rd(x)
    if isinstance(v, Mat):
        return v
    if isinstance(v, Struct) and v.cls == "CommaInit":
        return ex.rd(v.get("lv"))
    if is_scalar(v):
        return mat(1, 1, lambda i, j: v)
    if isinstance(v, Struct) and v.cls == "Eigen::AngleAxis":
        return aa_matrix(ex, v)
    if isinstance(v, Struct) and v.cls == "diag":
        d = v.get("v")
        return mat(d.r, d.r, lambda i, j: ite(eq(i, j), d.at(i, 0), Fraction(0)))
    raise Unsupported("matrix expected, got %r" % (v,))


def shape_eq(ex, a, b, what, e=None):
    ex.oblige(what + ": same dimensions", and_(eq(a.r, b.r), eq(a.c, b.c)), line=e.get("line") if e else None)


def cr(a, b):
    return a if isinstance(a, int) else b


def ewise(ex, f, a, b, what, e):
    shape_eq(ex, a, b, what, e)
    return mat(cr(a.r, b.r), cr(a.c, b.c), lambda i, j: f(a.at(i, j), b.at(i, j)))


def msum(ex, lo, hi, fn):
    """sum_{k in [lo,hi)} fn(k)"""
    from . import loops
    if isinstance(hi, int) and isinstance(lo, int) and hi - lo <= 64:
        r = None
        for k in range(lo, hi):
            t = fn(k)
            r = t if r is None else add(r, t)
        return r if r is not None else Fraction(0)
    k = z3.Int(ex.new("k"))
    return loops.SUM(ex, lo, hi, k, zx(toreal(fn(k))))


def mmul(ex, a, b, e=None):
    ex.oblige("matrix product: inner dimensions agree", eq(a.c, b.r), line=e.get("line") if e else None)
    n = cr(a.c, b.r)
    m = mat(a.r, b.c, lambda i, j: msum(ex, 0, n, lambda k: mul(a.at(i, k), b.at(k, j))), alg=_alg("*", a, b))
    if all(x == 3 and not is_sym(x) for x in (a.r, a.c, b.r, b.c)) and is_rot(ex, a) and is_rot(ex, b):
        add_rot(ex, m)
    return m


def is_rot(ex, R):
    """known to be a rotation: assumed so, or a product or transpose of matrices known to be"""
    rs = getattr(ex, "rotations", None)
    return bool(rs) and (rows_key(R) in rs or rows_key(mtr(R)) in rs)


def add_rot(ex, R):
    ex.rotations = dict(getattr(ex, "rotations", {}))
    ex.rotations[rows_key(R)] = [R.at(i, j) for i in range(3) for j in range(3)]


def _alg(op, *ms):
    return None


def mscale(ex, a, s):
    s = toreal(s)
    return mat(a.r, a.c, lambda i, j: mul(a.at(i, j), s))


def madd(ex, a, b, e=None):
    return ewise(ex, add, a, b, "matrix sum", e)


def msub(ex, a, b, e=None):
    return ewise(ex, sub, a, b, "matrix difference", e)


def mtr(a):
    return mat(a.c, a.r, lambda i, j: a.at(j, i))


def mid(n, m=None):
    return mat(n, n if m is None else m, lambda i, j: ite(eq(i, j), Fraction(1), Fraction(0)))


def mzero(n, m=1):
    return mat(n, m, lambda i, j: Fraction(0))


def cross3(a, b):
    x = [a.at(i, 0) for i in range(3)]
    y = [b.at(i, 0) for i in range(3)]
    r = [sub(mul(x[1], y[2]), mul(x[2], y[1])), sub(mul(x[2], y[0]), mul(x[0], y[2])), sub(mul(x[0], y[1]), mul(x[1], y[0]))]
    return mat(3, 1, lambda i, j: r[i])


def colvec(*xs):
    xs = [toreal(x) for x in xs]
    return mat(len(xs), 1, lambda i, j: xs[i])


def from_rows(rows):
    return mat(len(rows), len(rows[0]), lambda i, j: rows[i][j])


def blk(m, i0, j0, r, c):
    return mat(r, c, lambda i, j: m.at(add(i0, i), add(j0, j)))


def affine(R, t):
    return mat(4, 4, lambda i, j: Fraction(int(j == 3)) if i == 3 else (t.at(i, 0) if j == 3 else R.at(i, j)))


def quat_matrix(q):
    """Eigen::Quaternion::toRotationMatrix, q = (x,y,z,w)"""
    x, y, z, w = [q.at(i, 0) for i in range(4)]
    m2 = lambda a, b: mul(2, mul(a, b))
    return from_rows([
        [sub(1, add(m2(y, y), m2(z, z))), sub(m2(x, y), m2(z, w)), add(m2(x, z), m2(y, w))],
        [add(m2(x, y), m2(z, w)), sub(1, add(m2(x, x), m2(z, z))), sub(m2(y, z), m2(x, w))],
        [sub(m2(x, z), m2(y, w)), add(m2(y, z), m2(x, w)), sub(1, add(m2(x, x), m2(y, y)))]])


def quat_mul(a, b):
    ax, ay, az, aw = [a.at(i, 0) for i in range(4)]
    bx, by, bz, bw = [b.at(i, 0) for i in range(4)]
    s = lambda *t: __import__("functools").reduce(add, t)
    return colvec(
        s(mul(aw, bx), mul(ax, bw), mul(ay, bz), neg(mul(az, by))),
        s(mul(aw, by), mul(ay, bw), mul(az, bx), neg(mul(ax, bz))),
        s(mul(aw, bz), mul(az, bw), mul(ax, by), neg(mul(ay, bx))),
        s(mul(aw, bw), neg(mul(ax, bx)), neg(mul(ay, by)), neg(mul(az, bz))))


def aa_matrix(ex, v):
    """Rodrigues formula, Eigen::AngleAxis::toRotationMatrix"""
    th, ax = v.get("angle"), v.get("axis")
    s, c = rfun(ex, "sin", th), rfun(ex, "cos", th)
    x, y, z = [ax.at(i, 0) for i in range(3)]
    C = sub(Fraction(1), c)
    e = lambda a, b: mul(C, mul(a, b))
    return from_rows([
        [add(e(x, x), c), sub(e(x, y), mul(z, s)), add(e(x, z), mul(y, s))],
        [add(e(x, y), mul(z, s)), add(e(y, y), c), sub(e(y, z), mul(x, s))],
        [sub(e(x, z), mul(y, s)), add(e(y, z), mul(x, s)), add(e(z, z), c)]])


def aa_quat(ex, v):
    th, ax = v.get("angle"), v.get("axis")
    h = div(th, 2)
    s, c = rfun(ex, "sin", h), rfun(ex, "cos", h)
    return colvec(mul(s, ax.at(0, 0)), mul(s, ax.at(1, 0)), mul(s, ax.at(2, 0)), c)


def rot_of(ex, x):
    """3x3 matrix of a rotation-like operand"""
    v = ex.rd(x)
    if isinstance(v, Struct) and v.cls == "Eigen::AngleAxis":
        return aa_matrix(ex, v)
    if isinstance(v, Mat):
        if v.r == 4 and v.c == 1:
            return quat_matrix(v)
        if v.r == 4 and v.c == 4:
            return blk(v, 0, 0, 3, 3)
        return v
    raise Unsupported("rotation expected")


def log_of(ex, R):
    """AngleAxis(R): the angle in [0,pi] and unit axis with Rodrigues(angle, axis) = R (R a rotation)"""
    es = [zx(toreal(R.at(i, j))) for i in range(3) for j in range(3)]
    th = ex.uf("log.angle", es, "real")
    ax = mat(3, 1, lambda i, j: ex.uf("log.axis%d" % i, es, "real"))
    v = Struct("Eigen::AngleAxis", {"angle": th, "axis": ax})
    key = ("logfact", th.get_id())
    if key not in ex.fact_seen:
        ex.fact_seen.add(key)
        RR = aa_matrix(ex, v)
        pi = z3.Real("PI")
        ex.assumed.add("Eigen::AngleAxis(R) returns angle in [0,pi] and a unit axis whose rotation is R (for rotation matrices R)")
        ex.log_facts = getattr(ex, "log_facts", [])
        n2 = msum(ex, 0, 3, lambda k: mul(ax.at(k, 0), ax.at(k, 0)))
        ex.log_facts.append((th, ax, R, [zx(RR.at(i, j)) == zx(toreal(R.at(i, j))) for i in range(3) for j in range(3)]
                             + [n2 == 1, th >= 0, th <= pi]))
    return v


# ------------------------------------------------------------------- constructors / assignment
def eig_tmpl(s):
    s = strip_cv(s.replace("&", ""))
    m = re.match(r"^([\w:]+)<(.*)>$", s)
    return (m.group(1), split_args(m.group(2))) if m else (s, [])


@pat(r"^Eigen::(Matrix|Array)::ctor$")
def _mctor(ex, e, o, a):
    t = ptype(e["t"])
    vals = [ex.rd(x) for x in a]
    R, C = t.a
    if not vals:
        return ex.default_value(t)
    if len(vals) == 1 and not is_scalar(vals[0]):
        v = vals[0]
        if isinstance(v, Iter):
            s = ex.rd(v.lv)
            if R > 0:
                p = v.pos
                return mat(R, C, lambda i, j: ex.get_acc(s, ("i", add(p, add(i, mul(j, R))))))
            raise Unsupported("matrix from pointer")
        if isinstance(v, Opaque):
            return v
        m = M(ex, v)
        return fit(ex, m, R, C, e)
    if C == 1 and R == -1 and len(vals) == 1:
        nm = ex.new("uninit")
        n = vals[0]
        ex.oblige("vector size is not negative", ge(n, 0), line=e.get("line"))
        return mat(n, 1, lambda i, j: ex.uf(nm, (i,), "real"))
    if R == -1 and C == -1 and len(vals) == 2:
        nm = ex.new("uninit")
        return mat(vals[0], vals[1], lambda i, j: ex.uf(nm, (i, j), "real"))
    if R > 0 and C == 1 and len(vals) == R and R > 1:
        return colvec(*vals)
    if R > 0 and C == 1 and len(vals) == 1:
        if R == 1:
            return colvec(*vals)
        nm = ex.new("uninit")
        return mat(R, C, lambda i, j: ex.uf(nm, (i,), "real"))
    if R > 0 and C > 0 and len(vals) == 2 and R * C != 2:
        nm = ex.new("uninit")
        return mat(R, C, lambda i, j: ex.uf(nm, (i, j), "real"))
    if len(vals) == 2 and R == -1 and C == 1:
        return fit(ex, mat(vals[0], 1, lambda i, j: ex.uf(ex.new("u"), (i,), "real")), R, C, e)
    raise Unsupported("matrix constructor with %d arguments" % len(vals))


def fit(ex, m, R, C, e):
    """value m stored into a matrix of static shape R x C (-1: dynamic)"""
    if C == 1 and isinstance(m.r, int) and m.r == 1 and not (isinstance(m.c, int) and m.c == 1):
        m = mtr(m)
    if R > 0 or C > 0:
        if R > 0 and not (isinstance(m.r, int) and m.r == R):
            ex.oblige("assignment to a fixed-size matrix: rows agree", eq(m.r, R), line=e.get("line"))
        if C > 0 and not (isinstance(m.c, int) and m.c == C):
            ex.oblige("assignment to a fixed-size matrix: columns agree", eq(m.c, C), line=e.get("line"))
        r = R if R > 0 else m.r
        c = C if C > 0 else m.c
        if not (same(r, m.r) and same(c, m.c)):
            return mat(r, c, m.at)
    return m


@pat(r"^Eigen::(Matrix|Array|PlainObjectBase)::(operator=|lazyAssign|_set)$")
def _massign(ex, e, o, a):
    l, r = (a[0], a[1]) if o is None else (o, a[0])
    v = ex.rd(r)
    if isinstance(v, Opaque):
        ex.write(l, v)
        return l
    lt_ = e["a"][0]["t"] if o is None else e["o"]["t"]
    t = ptype(lt_)
    m = M(ex, v)
    if t.k == "mat" or t.k == "mati":
        m = fit(ex, m, t.a[0], t.a[1], e)
    ex.write(l, m)
    return l


def assign_view(ex, l, m, e):
    """coefficient-wise assignment into an existing view: shapes must agree"""
    cur = ex.rd(l)
    if isinstance(cur, Mat):
        if isinstance(m.r, int) and isinstance(cur.c, int) and m.r == 1 and cur.c == 1 and not (isinstance(cur.r, int) and cur.r == 1):
            m = mtr(m)
        elif isinstance(cur.r, int) and isinstance(m.c, int) and cur.r == 1 and m.c == 1 and not (isinstance(m.r, int) and m.r == 1):
            m = mtr(m)
        shape_eq(ex, cur, m, "block assignment", e)
        if not (same(cur.r, m.r) and same(cur.c, m.c)):
            m = mat(cur.r, cur.c, m.at)
    ex.write(l, m)
    return l


@pat(r"^Eigen::(Block|VectorBlock|Transpose|Diagonal|ArrayWrapper|MatrixWrapper|Reverse|MapBase|Map|Ref|DenseBase|MatrixBase|ArrayBase|NoAlias|VectorwiseOp)::(operator=|lazyAssign)$")
def _bassign(ex, e, o, a):
    l, r = (a[0], a[1]) if o is None else (o, a[0])
    lv = l
    v = ex.rd(r)
    if isinstance(v, Opaque):
        return l
    if "NoAlias" in e["fn"]:
        lt_ = e["a"][0]["t"] if o is None else e["o"]["t"]
        inner = eig_tmpl(lt_)[1]
        if not (inner and inner[0].replace("const ", "").startswith(("Eigen::Block", "Eigen::VectorBlock", "Eigen::Map", "Eigen::Ref", "Eigen::Transpose", "Eigen::Diagonal"))):
            # noalias(): assignment to the plain object, which resizes
            m = M(ex, v)
            ex.write(l, m)
            return l
    return assign_view(ex, l, M(ex, v), e)


def base_is_plain(ex, l):
    return isinstance(l, LV) and l.root != "alt" and not any(x[0] in ("blk", "T", "diag", "rev") for x in l.acc) and False


@pat(r"^Eigen::(Block|VectorBlock|Map|Ref|CommaInitializer|Stride|Transpose|Translation|ArrayWrapper|Product|CwiseBinaryOp|CwiseUnaryOp|MapBase|InnerStride|OuterStride|DiagonalWrapper|CwiseNullaryOp|NoAlias|MatrixWrapper|Reverse|Solve|Inverse)::ctor$")
def _viewctor(ex, e, o, a):
    nm = e["fn"].split("::")[1]
    if nm == "Map":
        p = ex.rd(a[0])
        n, ta = eig_tmpl(e["t"])
        t = ptype(ta[0])
        if t.k == "quat" and isinstance(p, Iter) and isinstance(p.lv, LV):
            s = ex.rd(p.lv)
            if isinstance(s, Mat) and s.c == 1:
                ex.oblige("mapped quaternion inside the array", and_(ge(p.pos, 0), le(add(p.pos, 4), s.r)), line=e.get("line"))
                return view(ex, p.lv, "blk", p.pos, 0, 4, 1)
        dims = [ex.rd(x) for x in a[1:] if is_scalar(ex.rd(x))]
        R, C = t.a
        if R < 0:
            R = dims[0] if dims else None
        if C < 0:
            C = dims[1] if len(dims) > 1 else None
        if isinstance(p, Iter) and isinstance(p.lv, LV):
            s = ex.rd(p.lv)
            if isinstance(s, Seq):
                ex.oblige("mapped block inside the array", and_(ge(p.pos, 0), le(add(p.pos, mul(R, C)), s.n)), line=e.get("line"))
                pos = p.pos
                return mat(R, C, lambda i, j: toreal(s.at(add(pos, add(i, mul(j, R))))))
            if isinstance(s, Mat):
                ex.oblige("mapped block inside the array", and_(ge(p.pos, 0), le(add(p.pos, mul(R, C)), mul(s.r, s.c))), line=e.get("line"))
                if isinstance(s.c, int) and s.c == 1:
                    return mat(R, C, lambda i, j: s.at(add(p.pos, add(i, mul(j, R))), 0))
                if same(p.pos, 0) and same(R, s.r):
                    return mat(R, C, s.at)
                lin = lambda i, j: zx(add(p.pos, add(i, mul(j, R))))
                return mat(R, C, lambda i, j: s.at(lin(i, j) % zx(s.r), lin(i, j) / zx(s.r)))
        if p is NULL or isinstance(p, Ptr) and p.kind == "null":
            # nothing is mapped: any access is outside
            ex.oblige("nothing but an empty block is mapped on the null pointer", eq(mul(R, C), 0), line=e.get("line"))
            return mat(R, C, lambda i, j: Fraction(0))
        raise Unsupported("Map constructor")
    if nm == "Translation":
        vals = [ex.rd(x) for x in a]
        if len(vals) == 3:
            return colvec(*vals)
        return M(ex, vals[0])
    if nm in ("Stride", "InnerStride", "OuterStride"):
        return Opaque("stride")
    if len(a) >= 1:
        return a[0]
    raise Unsupported("constructor " + e["fn"])


@pat(r"^Eigen::Transform::ctor$")
def _xctor(ex, e, o, a):
    if not a:
        return ex.default_value(T("xform"))
    v = ex.rd(a[0])
    return to_xform(ex, v)


def to_xform(ex, v):
    if isinstance(v, Struct) and v.cls == "Eigen::AngleAxis":
        return affine(aa_matrix(ex, v), mzero(3))
    if isinstance(v, Mat):
        if v.r == 4 and v.c == 4:
            return mat(4, 4, lambda i, j: Fraction(int(j == 3)) if i == 3 else v.at(i, j))
        if v.r == 4 and v.c == 1:
            return affine(quat_matrix(v), mzero(3))
        if v.r == 3 and v.c == 3:
            return affine(v, mzero(3))
        if v.r == 3 and v.c == 1:
            return affine(mid(3), v)
    raise Unsupported("transform from %r" % (v,))


@pat(r"^Eigen::Transform::operator=$")
def _xassign(ex, e, o, a):
    ex.write(a[0], to_xform(ex, ex.rd(a[1])))
    return a[0]


@pat(r"^Eigen::Transform::(matrix|affine)$")
def _xmatrix(ex, e, o, a):
    if e["fn"].endswith("affine"):
        return view(ex, o, "blk", 0, 0, 3, 4)
    return o


@pat(r"^Eigen::Transform::(linear|rotation)$")
def _xlin(ex, e, o, a):
    if e["fn"].endswith("rotation"):
        ex.assumed.add("Transform::rotation() of a rigid transform is its linear part")
        m = ex.rd(o)
        return blk(m, 0, 0, 3, 3)
    return view(ex, o, "blk", 0, 0, 3, 3)


@pat(r"^Eigen::Transform::(translation)$")
def _xtr(ex, e, o, a):
    return view(ex, o, "blk", 0, 3, 3, 1)


@pat(r"^Eigen::Transform::(setIdentity|Identity)$")
def _xid(ex, e, o, a):
    if e["fn"].endswith("setIdentity"):
        ex.write(o, mid(4))
        return None
    return mid(4)


@pat(r"^Eigen::Transform::inverse$")
def _xinv(ex, e, o, a):
    m = M(ex, o)
    R, t = blk(m, 0, 0, 3, 3), blk(m, 0, 3, 3, 1)
    mode = ex.rd(a[0]) if a else 2
    if mode == 1:  # Isometry
        Ri = mtr(R)
    else:
        Ri = inv3(ex, R)
    return affine(Ri, mat(3, 1, lambda i, j: neg(msum(ex, 0, 3, lambda k: mul(Ri.at(i, k), t.at(k, 0))))))


def det3(R):
    r = lambda i, j: R.at(i, j)
    m = lambda a, b: mul(a, b)
    return add(add(m(r(0, 0), sub(m(r(1, 1), r(2, 2)), m(r(1, 2), r(2, 1)))),
                   m(r(0, 1), sub(m(r(1, 2), r(2, 0)), m(r(1, 0), r(2, 2))))),
               m(r(0, 2), sub(m(r(1, 0), r(2, 1)), m(r(1, 1), r(2, 0)))))


def inv3(ex, R):
    """inverse of a 3x3 rotation: its transpose when it is known to be orthogonal, adjugate/determinant otherwise"""
    if is_rot(ex, R):
        return mtr(R)
    d = det3(R)
    def cof(i, j):
        i1, i2, j1, j2 = (i + 1) % 3, (i + 2) % 3, (j + 1) % 3, (j + 2) % 3
        return sub(mul(R.at(i1, j1), R.at(i2, j2)), mul(R.at(i1, j2), R.at(i2, j1)))
    return mat(3, 3, lambda i, j: div(cof(j, i), d))


def rows_key(R):
    return tuple((zx(R.at(i, j)).get_id() if is_sym(R.at(i, j)) else R.at(i, j)) for i in range(3) for j in range(3))


@pat(r"^Eigen::Transform::operator\*$")
def _xmul(ex, e, o, a):
    A, B = ex.rd(a[0]), ex.rd(a[1])
    A = M(ex, A)
    if isinstance(B, Mat) and B.r == 3 and B.c == 1 and not is_translation(e["a"][1]):
        return mat(3, 1, lambda i, j: add(msum(ex, 0, 3, lambda k: mul(A.at(i, k), B.at(k, 0))), A.at(i, 3)))
    if isinstance(B, Mat) and B.r == 4 and B.c == 1 and "Quaternion" not in e["a"][1]["t"]:
        return mat(4, 1, lambda i, j: msum(ex, 0, 4, lambda k: mul(A.at(i, k), B.at(k, 0))))
    X = to_xform(ex, B)
    return xmul(ex, A, X)


def xmul(ex, A, X):
    m = _xmul4(ex, A, X)
    if getattr(ex, "rotations", None) and is_rot(ex, blk(A, 0, 0, 3, 3)) and is_rot(ex, blk(X, 0, 0, 3, 3)):
        add_rot(ex, blk(m, 0, 0, 3, 3))
    return m


def _xmul4(ex, A, X):
    return mat(4, 4, lambda i, j: Fraction(int(j == 3)) if i == 3 else
               add(msum(ex, 0, 3, lambda k: mul(A.at(i, k), X.at(k, j))), A.at(i, 3) if j == 3 else Fraction(0)))


def is_translation(n):
    return "Eigen::Translation" in n.get("t", "")


@pat(r"^Eigen::(Transform|MatrixBase|PlainObjectBase|DenseCoeffsBase|Map|MapBase|DenseBase|QuaternionBase|ArrayBase|Block)::(operator\(\)|operator\[\]|coeff|coeffRef)$")
def _coef(ex, e, o, a):
    c, idx = (a[0], a[1:]) if o is None else (o, a)
    if isinstance(c, LV):
        m = ex.read(c)
        while isinstance(m, LV):
            c, m = m, ex.read(m)
    else:
        m = c
    if isinstance(m, Opaque):
        return m
    if isinstance(m, Struct):
        m2 = M(ex, m)
        c, m = m2, m2
    idx = [simp(ex.rd(i)) for i in idx]
    if len(idx) == 1:
        i = idx[0]
        if isinstance(m.c, int) and m.c == 1:
            ex.oblige("coefficient index inside the vector", and_(ge(i, 0), lt(i, m.r)), line=e.get("line"))
            return elem(c, m, i, 0)
        if isinstance(m.r, int) and m.r == 1:
            ex.oblige("coefficient index inside the row vector", and_(ge(i, 0), lt(i, m.c)), line=e.get("line"))
            return elem(c, m, 0, i)
        if isinstance(m.r, int) and isinstance(i, int):
            return elem(c, m, i % m.r, i // m.r)   # column-major linear access
        if not isinstance(m.c, int):
            # dynamic vector obtained from a view
            ex.oblige("coefficient index inside the vector", and_(ge(i, 0), lt(i, m.r), eq(m.c, 1)), line=e.get("line"))
            return elem(c, m, i, 0)
        raise Unsupported("linear access to a matrix")
    i, j = idx
    ex.oblige("coefficient index inside the matrix", and_(ge(i, 0), lt(i, m.r), ge(j, 0), lt(j, m.c)), line=e.get("line"))
    return elem(c, m, i, j)


def elem(c, m, i, j):
    if isinstance(c, LV):
        if c.root == "alt":
            cc, x, y = c.acc
            return LV("alt", (cc, elem(x, m, i, j), elem(y, m, i, j)))
        return LV(c.root, c.acc + (("e", i, j),))
    return m.at(i, j)


@pat(r"^Eigen::(\w+)::(size|rows|cols)$")
def _dims(ex, e, o, a):
    v = ex.rd(o)
    if isinstance(v, Opaque):
        raise Unsupported("size of opaque")
    m = M(ex, v)
    nm = e["fn"].split("::")[-1]
    if nm == "rows":
        return m.r
    if nm == "cols":
        return m.c
    if isinstance(m.c, int) and m.c == 1:
        return m.r
    if isinstance(m.r, int) and m.r == 1:
        return m.c
    return mul(m.r, m.c)


@pat(r"^Eigen::(PlainObjectBase|Matrix|DenseBase|MatrixBase|ArrayBase|Array|Block|Ref|Map)::(setZero|setOnes|setConstant|fill|setIdentity|setRandom)$")
def _fill(ex, e, o, a):
    m = ex.rd(o)
    if isinstance(m, Opaque):
        return o
    nm = e["fn"].split("::")[-1]
    vals = [ex.rd(x) for x in a]
    r, c = m.r, m.c
    fillv = None
    if nm in ("setConstant", "fill"):
        fillv = toreal(vals[-1])
        dims = vals[:-1]
    else:
        dims = vals
    if len(dims) == 1:
        if isinstance(c, int) and c == 1:
            r = dims[0]
        else:
            c = dims[0]
    elif len(dims) == 2:
        r, c = dims
    if nm == "setZero":
        fillv = Fraction(0)
    if nm == "setOnes":
        fillv = Fraction(1)
    if nm == "setIdentity":
        v = mid(r, c)
    elif nm == "setRandom":
        n = ex.new("random")
        v = mat(r, c, lambda i, j: ex.uf(n, (i, j), "real"))
    else:
        fv = fillv
        v = mat(r, c, lambda i, j: fv)
    ex.write(o, v)
    return o


@pat(r"^Eigen::(PlainObjectBase|Matrix|DenseBase)::(resize|conservativeResize|conservativeResizeLike|resizeLike)$")
def _resize(ex, e, o, a):
    m = ex.rd(o)
    if isinstance(m, Opaque):
        return None
    vals = [ex.rd(x) for x in a]
    nm = e["fn"].split("::")[-1]
    cons = nm.startswith("conservative")
    if nm.endswith("Like"):
        src = M(ex, vals[0])
        vals = [src.r, src.c]
        if isinstance(m.c, int) and m.c == 1:
            vals = [src.r]
    t = ptype(e["o"]["t"]) if e.get("o") else None
    if len(vals) == 1:
        if isinstance(m.c, int) and m.c == 1:
            r, c = vals[0], 1
        else:
            r, c = 1, vals[0]
    else:
        r, c = vals
        nc = ["NoChange" in str(x.get("t", "")) or "NoChange" in str(x.get("x", {}).get("t", "") if isinstance(x.get("x"), dict) else "") for x in e.get("a", [])]
        if not is_scalar(r) or (len(nc) == 2 and nc[0]):
            r = m.r      # NoChange
        if not is_scalar(c) or (len(nc) == 2 and nc[1]):
            c = m.c
    if nm == "conservativeResizeLike":
        old = m
        ex.write(o, mat(r, c, lambda i, j: pick(and_(lt(i, old.r), lt(j, old.c)), lambda: old.at(i, j), lambda: src.at(i, j))))
        return None
    u = ex.new("uninit")
    fresh = lambda i, j: ex.uf(u, (i, j), "real")
    old = m
    if cons:
        v = mat(r, c, lambda i, j: pick(and_(lt(i, old.r), lt(j, old.c)), lambda: old.at(i, j), lambda: fresh(i, j)))
    else:
        keep = simp(and_(eq(r, old.r), eq(c, old.c)))
        if not is_sym(keep):
            v = m if keep else mat(r, c, fresh)
        elif ex.known(keep):
            v = mat(r, c, old.at)
        else:
            v = mat(r, c, lambda i, j: pick(keep, lambda: old.at(i, j), lambda: fresh(i, j)))
    ex.write(o, v)
    return None


def pick(c, f, g):
    c = simp(c)
    if c is True:
        return f()
    if c is False:
        return g()
    return ite(c, f(), g())


@pat(r"^Eigen::(\w+)::(Zero|Ones|Constant|Identity|UnitX|UnitY|UnitZ|UnitW|Random|LinSpaced)$")
def _static(ex, e, o, a):
    nm = e["fn"].split("::")[-1]
    vals = [ex.rd(x) for x in a]
    if e["fn"].startswith("Eigen::Quaternion"):
        return colvec(0, 0, 0, 1)
    # static shape from the return type
    r = c = None
    n, ta = eig_tmpl(e["t"])
    shp = static_shape(e["t"])
    r, c = shp
    if nm == "Constant":
        v, dims = vals[-1], vals[:-1]
    else:
        v, dims = {"Zero": Fraction(0), "Ones": Fraction(1)}.get(nm), vals
    if len(dims) == 2:
        r, c = dims
    elif len(dims) == 1:
        if c == 1:
            r = dims[0]
        else:
            r, c = 1, dims[0]
    if nm == "Identity":
        return mid(r, c)
    if nm.startswith("Unit"):
        k = "XYZW".index(nm[-1])
        return mat(r, 1, lambda i, j: Fraction(int(i == k)))
    if nm in ("Random", "LinSpaced"):
        u = ex.new("random")
        return mat(r, c, lambda i, j: ex.uf(u, (i, j), "real"))
    v = toreal(v)
    return mat(r, c, lambda i, j: v)


def static_shape(s):
    """shape of the innermost Matrix type named in an expression type"""
    s = strip_cv(s.replace("&", ""))
    n, ta = eig_tmpl(s)
    if n in ("Eigen::Matrix", "Eigen::Array"):
        return int(ta[1]), int(ta[2])
    if n in ("Eigen::Block",):
        return int(ta[1]), int(ta[2])
    if n == "Eigen::VectorBlock":
        return int(ta[1]), 1
    for x in reversed(ta):
        x = strip_cv(x)
        if x.startswith("Eigen::"):
            r = static_shape(x)
            if r != (None, None):
                return r
    return None, None


def static_block(e):
    """(R, C) compile-time extents of a returned Block/VectorBlock type"""
    n, ta = eig_tmpl(e["t"])
    if n == "Eigen::Block":
        return int(ta[1]), int(ta[2])
    if n == "Eigen::VectorBlock":
        return int(ta[1]), 1
    return -1, -1


@pat(r"^Eigen::(\w+)::(head|tail|segment)$")
def _seg(ex, e, o, a):
    m = M(ex, o)
    vals = [ex.rd(x) for x in a]
    nm = e["fn"].split("::")[-1]
    N = static_block(e)[0]
    n, ta = eig_tmpl(e["t"])
    dynargs = list(vals)
    isrow = isinstance(m.r, int) and m.r == 1 and not (isinstance(m.c, int) and m.c == 1)
    L = m.c if isrow else m.r
    if nm == "segment":
        i0 = dynargs[0]
        cnt = dynargs[1] if len(dynargs) > 1 else N
    else:
        cnt = dynargs[0] if dynargs else N
        i0 = 0 if nm == "head" else sub(L, cnt)
    ex.oblige("%s stays inside the vector" % nm, and_(ge(i0, 0), ge(cnt, 0), le(add(i0, cnt), L)), line=e.get("line"))
    if isrow:
        return view(ex, o if isinstance(o, LV) else m, "blk", 0, i0, 1, cnt)
    return view(ex, o if isinstance(o, LV) else m, "blk", i0, 0, cnt, 1)


@pat(r"^Eigen::(\w+)::(block|topRows|bottomRows|leftCols|rightCols|middleRows|middleCols|topLeftCorner|topRightCorner|bottomLeftCorner|bottomRightCorner|col|row)$")
def _block(ex, e, o, a):
    m = M(ex, o)
    vals = [ex.rd(x) for x in a]
    nm = e["fn"].split("::")[-1]
    R, C = static_block(e)
    i0, j0, r, c = 0, 0, m.r, m.c
    if nm == "block":
        i0, j0 = vals[0], vals[1]
        r, c = (vals[2], vals[3]) if len(vals) == 4 else (R, C)
    elif nm in ("topRows", "bottomRows"):
        r = vals[0] if vals else R
        i0 = 0 if nm == "topRows" else sub(m.r, r)
    elif nm in ("leftCols", "rightCols"):
        c = vals[0] if vals else C
        j0 = 0 if nm == "leftCols" else sub(m.c, c)
    elif nm == "middleRows":
        i0, r = vals[0], (vals[1] if len(vals) > 1 else R)
    elif nm == "middleCols":
        j0, c = vals[0], (vals[1] if len(vals) > 1 else C)
    elif nm.endswith("Corner"):
        r, c = vals if len(vals) == 2 else (R, C)
        i0 = 0 if nm.startswith("top") else sub(m.r, r)
        j0 = 0 if "Left" in nm else sub(m.c, c)
    elif nm == "col":
        j0, c = vals[0], 1
    elif nm == "row":
        i0, r = vals[0], 1
    ex.oblige("%s stays inside the matrix" % nm, and_(ge(i0, 0), ge(j0, 0), ge(r, 0), ge(c, 0), le(add(i0, r), m.r),
                                                     le(add(j0, c), m.c)), line=e.get("line"))
    return view(ex, o if isinstance(o, LV) else m, "blk", i0, j0, r, c)


@pat(r"^Eigen::(\w+)::(transpose|adjoint)$")
def _transp(ex, e, o, a):
    if isinstance(o, LV):
        return view(ex, o, "T")
    return mtr(M(ex, o))


@pat(r"^Eigen::(\w+)::(transposeInPlace)$")
def _transpip(ex, e, o, a):
    ex.write(o, mtr(M(ex, o)))


@pat(r"^Eigen::(\w+)::(diagonal)$")
def _diagonal(ex, e, o, a):
    return view(ex, o if isinstance(o, LV) else M(ex, o), "diag")


@pat(r"^Eigen::(\w+)::(asDiagonal)$")
def _asdiag(ex, e, o, a):
    v = M(ex, o)
    return mat(v.r, v.r, lambda i, j: ite(eq(i, j), v.at(i, 0), Fraction(0)))


@pat(r"^Eigen::(\w+)::(reverse)$")
def _rev(ex, e, o, a):
    return view(ex, o if isinstance(o, LV) else M(ex, o), "rev")


@pat(r"^Eigen::(\w+)::(array|matrix|noalias|derived|eval|const_cast_derived|col_wise|nestedExpression|real|lhs|rhs|allowAligned|self)$")
def _ident(ex, e, o, a):
    if e["fn"].endswith("::eval"):
        return ex.rd(o)
    return o


@pat(r"^Eigen::(\w+::)*operator_conv$")
def _conv(ex, e, o, a):
    t = ptype(e["t"])
    if t.k in ("real", "int"):
        return M(ex, o).at(0, 0)
    return ex.rd(o)


# ------------------------------------------------------------------- arithmetic
def is_quat_t(n):
    return "Eigen::Quaternion<" in n.get("t", "") or "Eigen::QuaternionBase<" in n.get("t", "")


@pat(r"^Eigen::(\w+::)?operator(\*|\+|-|/)$")
def _arith(ex, e, o, a):
    op = e["fn"].split("operator")[-1]
    x, y = ex.rd(a[0]), (ex.rd(a[1]) if len(a) > 1 else None)
    if isinstance(x, Opaque) or isinstance(y, Opaque):
        return Opaque("eigen")
    if y is None:
        m = M(ex, x)
        return mat(m.r, m.c, lambda i, j: neg(m.at(i, j)))
    fn = e["fn"]
    isarr = "Array" in fn or any("Eigen::ArrayBase" in z.get("t", "") or z.get("t", "").startswith("Eigen::Array") for z in e["a"])
    if op == "*":
        if is_scalar(x) and is_scalar(y):
            return mul(x, y)
        if is_scalar(x):
            return mscale(ex, M(ex, y), x)
        if is_scalar(y):
            return mscale(ex, M(ex, x), y)
        if isarr and not "Eigen::AngleAxis" in fn:
            return ewise(ex, mul, M(ex, x), M(ex, y), "array product", e)
        tx, ty_ = e["a"][0].get("t", ""), e["a"][1].get("t", "")
        if fn.startswith("Eigen::Translation") or is_translation(e["a"][0]):
            if is_translation(e["a"][1]):
                return madd(ex, x, y, e)
            if isinstance(y, Mat) and y.r == 3 and y.c == 1:
                return madd(ex, x, y, e)
            return xmul(ex, affine(mid(3), x), to_xform(ex, y))
        if isinstance(x, Struct) or fn.startswith("Eigen::AngleAxis") or fn.startswith("Eigen::RotationBase"):
            if isinstance(x, Struct) and x.cls == "Eigen::AngleAxis" and (isinstance(y, Struct) or is_quat_t(e["a"][1])):
                qy = aa_quat(ex, y) if isinstance(y, Struct) else y
                return quat_mul(aa_quat(ex, x), qy)
            if is_quat_t(e["a"][0]) and isinstance(y, Struct) and y.cls == "Eigen::AngleAxis":
                return quat_mul(x, aa_quat(ex, y))
            if is_translation(e["a"][1]):
                return xmul(ex, affine(rot_of(ex, x), mzero(3)), affine(mid(3), y))
            if isinstance(y, Mat) and y.r == 4 and y.c == 4:
                return xmul(ex, affine(rot_of(ex, x), mzero(3)), y)
            return mmul(ex, rot_of(ex, x), M(ex, y), e)
        if isinstance(y, Struct) and y.cls == "Eigen::AngleAxis":
            if is_quat_t(e["a"][0]):
                return quat_mul(x, aa_quat(ex, y))
            return mmul(ex, M(ex, x), aa_matrix(ex, y), e)
        if is_quat_t(e["a"][0]):
            if is_quat_t(e["a"][1]):
                return quat_mul(x, y)
            return mmul(ex, quat_matrix(x), M(ex, y), e)
        return mmul(ex, M(ex, x), M(ex, y), e)
    if op == "/":
        if is_scalar(y):
            m = M(ex, x)
            return mat(m.r, m.c, lambda i, j: div(m.at(i, j), y))
        if is_scalar(x):
            m = M(ex, y)
            return mat(m.r, m.c, lambda i, j: div(x, m.at(i, j)))
        return ewise(ex, div, M(ex, x), M(ex, y), "array quotient", e)
    f = add if op == "+" else sub
    if is_scalar(y):
        m = M(ex, x)
        return mat(m.r, m.c, lambda i, j: f(m.at(i, j), toreal(y)))
    if is_scalar(x):
        m = M(ex, y)
        return mat(m.r, m.c, lambda i, j: f(toreal(x), m.at(i, j)))
    return ewise(ex, f, M(ex, x), M(ex, y), "matrix sum" if op == "+" else "matrix difference", e)


@pat(r"^Eigen::(\w+)::operator(\+=|-=|\*=|/=)$")
def _arith_assign(ex, e, o, a):
    l, r = (a[0], a[1]) if o is None else (o, a[0])
    op = e["fn"].split("operator")[-1]
    x, y = ex.rd(l), ex.rd(r)
    if isinstance(x, Opaque) or isinstance(y, Opaque):
        return l
    cls = e["fn"].split("::")[1]
    if cls == "Transform":
        ex.write(l, xmul(ex, M(ex, x), to_xform(ex, y)))
        return l
    if cls in ("QuaternionBase", "Quaternion"):
        ex.write(l, quat_mul(x, y if isinstance(y, Mat) else aa_quat(ex, y)))
        return l
    m = M(ex, x)
    isarr = "Array" in e["fn"]
    if op in ("+=", "-="):
        f = add if op == "+=" else sub
        if is_scalar(y):
            v = mat(m.r, m.c, lambda i, j: f(m.at(i, j), toreal(y)))
        else:
            w = ewise(ex, f, m, orient(M(ex, y), m), "matrix " + op, e)
            v = mat(w.r if isinstance(w.r, int) else m.r, w.c if isinstance(w.c, int) else m.c, w.f if False else w.at)
    elif op == "*=":
        if is_scalar(y):
            v = mscale(ex, m, y)
        elif isarr:
            v = ewise(ex, mul, m, M(ex, y), "array *=", e)
        else:
            v = mmul(ex, m, rot_of(ex, y) if isinstance(y, Struct) else M(ex, y), e)
    else:
        if is_scalar(y):
            v = mat(m.r, m.c, lambda i, j: div(m.at(i, j), y))
        else:
            v = ewise(ex, div, m, M(ex, y), "array /=", e)
    ex.write(l, v)
    return l


def orient(y, m):
    return y


@pat(r"^Eigen::(\w+::)?operator(<|>|<=|>=|==|!=)$")
def _cmp(ex, e, o, a):
    op = e["op"]
    x, y = ex.rd(a[0]), ex.rd(a[1])
    f = {"<": lt, ">": gt, "<=": le, ">=": ge, "==": eq, "!=": ne}[op]
    isarr = "Array" in e["fn"]
    if is_scalar(y):
        m = M(ex, x)
        r = mat(m.r, m.c, lambda i, j: f(m.at(i, j), y))
        return r
    if is_scalar(x):
        m = M(ex, y)
        return mat(m.r, m.c, lambda i, j: f(x, m.at(i, j)))
    A, B = M(ex, x), M(ex, y)
    if not isarr and op in ("==", "!="):
        r = forall_entries(ex, A, lambda i, j: eq(A.at(i, j), B.at(i, j)))
        return r if op == "==" else not_(r)
    return ewise(ex, f, A, B, "array comparison", e)


def forall_entries(ex, m, f):
    if isinstance(m.r, int) and isinstance(m.c, int) and m.r * m.c <= 64:
        return and_(*[f(i, j) for i in range(m.r) for j in range(m.c)])
    i, j = z3.Int(ex.new("i")), z3.Int(ex.new("j"))
    if isinstance(m.c, int) and m.c == 1:
        b = f(i, 0)
        if isinstance(b, bool):
            return b if b else eq(m.r, 0)
        return z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < zx(m.r)), zx(b)))
    b = f(i, j)
    if isinstance(b, bool):
        return b if b else or_(eq(m.r, 0), eq(m.c, 0))
    return z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < zx(m.r), j >= 0, j < zx(m.c)), zx(b)))


@pat(r"^Eigen::(\w+)::(any|all|count|hasNaN|allFinite|isZero|isOnes|isConstant|isIdentity)$")
def _anyall(ex, e, o, a):
    m = M(ex, o)
    nm = e["fn"].split("::")[-1]
    if nm == "all":
        return forall_entries(ex, m, lambda i, j: tobool(m.at(i, j)))
    if nm == "any":
        return not_(forall_entries(ex, m, lambda i, j: not_(tobool(m.at(i, j)))))
    if nm in ("hasNaN",):
        return not_(forall_entries(ex, m, lambda i, j: not_(ex.uf("isnan", [toreal(m.at(i, j))], "bool"))))
    if nm == "allFinite":
        return forall_entries(ex, m, lambda i, j: not_(ex.uf("isnan", [toreal(m.at(i, j))], "bool")))
    if nm == "count":
        return msum(ex, 0, m.r, lambda k: ite(tobool(m.at(k, 0)), 1, 0))
    if nm == "isZero":
        p = toreal(ex.rd(a[0])) if a else Fraction(1, 10 ** 12)
        return forall_entries(ex, m, lambda i, j: le(absv(m.at(i, j)), p))
    if nm in ("isOnes", "isConstant", "isIdentity"):
        a = [x for x in a if not ex.is_default(x)] if hasattr(ex, "is_default") else a
        v = toreal(ex.rd(a[0])) if nm == "isConstant" else Fraction(1)
        a = a[1:] if nm == "isConstant" else a
        p = toreal(ex.rd(a[0])) if a else Fraction(1, 10 ** 12)

        def one(x):      # Eigen: |x - v| <= min(|x|, |v|) * p
            mn = ite(le(absv(x), absv(v)), absv(x), absv(v))
            return le(absv(sub(x, v)), mul(mn, p))
        if nm != "isIdentity":
            return forall_entries(ex, m, lambda i, j: one(m.at(i, j)))
        return forall_entries(ex, m, lambda i, j: ite(eq(i, j), one(m.at(i, j)), le(absv(m.at(i, j)), p)))
    raise Unsupported(nm)


@pat(r"^Eigen::(\w+)::(sum|prod|mean|squaredNorm|norm|stableNorm|normalized|normalize|lpNorm|trace|determinant|maxCoeff|minCoeff|dot|cross)$")
def _reduce(ex, e, o, a):
    m = M(ex, o)
    nm = e["fn"].split("::")[-1]
    def tot(f):
        if isinstance(m.c, int) and m.c == 1:
            return msum(ex, 0, m.r, lambda k: f(m.at(k, 0)))
        if isinstance(m.r, int) and m.r == 1:
            return msum(ex, 0, m.c, lambda k: f(m.at(0, k)))
        return msum(ex, 0, m.r, lambda i: msum(ex, 0, m.c, lambda j: f(m.at(i, j))))
    if nm == "sum":
        return tot(lambda x: x)
    if nm == "squaredNorm":
        return tot(lambda x: mul(x, x))
    if nm in ("norm", "stableNorm"):
        return rfun(ex, "sqrt", tot(lambda x: mul(x, x)))
    if nm in ("normalized", "normalize"):
        n = rfun(ex, "sqrt", tot(lambda x: mul(x, x)))
        sq = tot(lambda x: mul(x, x))
        z = simp(gt(sq, Fraction(0)))
        r = mat(m.r, m.c, lambda i, j: ite(z, div(m.at(i, j), n), m.at(i, j)))
        if nm == "normalize":
            ex.write(o, r)
            return None
        return r
    if nm == "dot":
        b = M(ex, a[0])
        ex.oblige("dot product: same size", eq(m.r, b.r), line=e.get("line"))
        return msum(ex, 0, cr(m.r, b.r), lambda k: mul(m.at(k, 0), b.at(k, 0)))
    if nm == "cross":
        return cross3(m, M(ex, a[0]))
    if nm == "trace":
        return msum(ex, 0, m.r, lambda k: m.at(k, k))
    if nm == "determinant" and m.r == 3:
        return det3(m)
    if nm in ("maxCoeff", "minCoeff") and isinstance(m.r, int) and isinstance(m.c, int):
        r = None
        for i in range(m.r):
            for j in range(m.c):
                x = m.at(i, j)
                r = x if r is None else ite((gt if nm == "maxCoeff" else lt)(x, r), x, r)
        return r
    if nm in ("maxCoeff", "minCoeff") and not a:
        v = ex.fresh("real", nm)
        w = z3.Int(ex.new("argmax"))
        cmp_ = (lambda x: zx(x) <= v) if nm == "maxCoeff" else (lambda x: zx(x) >= v)
        if isinstance(m.c, int) and m.c == 1:
            k = z3.Int(ex.new("k"))
            ex.fact(z3.Implies(zx(m.r) > 0, z3.And(w >= 0, w < zx(m.r), v == zx(m.at(w, 0)))))
            ex.fact(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < zx(m.r)), cmp_(m.at(k, 0)))))
            return v
    raise Unsupported("reduction " + nm)


@pat(r"^Eigen::(\w+)::(cwiseProduct|cwiseQuotient|cwiseMin|cwiseMax|cwiseAbs|cwiseInverse|abs|inverse|square|min|max|sqrt|cwiseSqrt|unaryExpr|select|cwiseEqual|sign|exp|cast)$")
def _cwise(ex, e, o, a):
    nm = e["fn"].split("::")[-1]
    cls = e["fn"].split("::")[1]
    if nm == "inverse" and cls in ("MatrixBase",):
        return minv(ex, M(ex, o), e)
    if nm == "inverse" and cls in ("QuaternionBase",):
        q = M(ex, o)
        n2 = msum(ex, 0, 4, lambda k: mul(q.at(k, 0), q.at(k, 0)))
        return mat(4, 1, lambda i, j: div(q.at(i, 0) if i == 3 else neg(q.at(i, 0)), n2))
    if nm == "inverse" and cls == "AngleAxis":
        v = ex.rd(o)
        return v.with_("angle", neg(v.get("angle")))
    m = M(ex, o)
    if nm == "cast":
        return m
    if nm in ("cwiseAbs", "abs"):
        return mat(m.r, m.c, lambda i, j: absv(m.at(i, j)))
    if nm in ("cwiseInverse", "inverse"):
        return mat(m.r, m.c, lambda i, j: div(1, m.at(i, j)))
    if nm == "square":
        return mat(m.r, m.c, lambda i, j: mul(m.at(i, j), m.at(i, j)))
    if nm in ("sqrt", "cwiseSqrt", "exp"):
        return mat(m.r, m.c, lambda i, j: rfun(ex, nm.replace("cwiseS", "s"), m.at(i, j)))
    f = {"cwiseProduct": mul, "cwiseQuotient": div, "cwiseMin": lambda x, y: ite(lt(y, x), y, x),
         "cwiseMax": lambda x, y: ite(gt(y, x), y, x), "min": lambda x, y: ite(lt(y, x), y, x),
         "max": lambda x, y: ite(gt(y, x), y, x)}.get(nm)
    if f is None:
        raise Unsupported(nm)
    b = ex.rd(a[0])
    if is_scalar(b):
        return mat(m.r, m.c, lambda i, j: f(m.at(i, j), toreal(b)))
    return ewise(ex, f, m, M(ex, b), nm, e)


def minv(ex, m, e):
    if m.r == 3 and m.c == 3:
        return inv3(ex, m)
    ex.oblige("inverse of a square matrix", eq(m.r, m.c), line=e.get("line") if isinstance(e, dict) else None)
    ex.assumed.add("the inverse of a dynamic-size matrix is an uninterpreted function of that matrix (used for invertible matrices only)")
    return inverse_of(m, ex)


def inverse_of(m, ex):
    """the inverse of m: entries are a function of the size and the entries of m"""
    from . import loops
    I, J = z3.Int("i$inv"), z3.Int("j$inv")
    h, ps = loops.canon(z3.simplify(zx(toreal(m.at(I, J)))), (I, J))
    return mat(m.r, m.c, lambda i, j: ex.uf("inv$" + h, [zx(i), zx(j), zx(m.r)] + ps, "real"))


@pat(r"^Eigen::(\w+)::(isApprox)$")
def _approx(ex, e, o, a):
    A, B = M(ex, o), M(ex, a[0])
    ex.assumed.add("isApprox is read as exact equality of the entries (real arithmetic)")
    return and_(eq(A.r, B.r), eq(A.c, B.c), forall_entries(ex, A, lambda i, j: eq(A.at(i, j), B.at(i, j))))


@pat(r"^Eigen::(\w+)::(swap)$")
def _swap(ex, e, o, a):
    x, y = ex.rd(o), ex.rd(a[0])
    ex.write(o, y)
    ex.write(a[0], x)


@pat(r"^Eigen::(\w+)::(applyOnTheLeft|applyOnTheRight)$")
def _applyleft(ex, e, o, a):
    x, y = M(ex, o), M(ex, a[0])
    v = mmul(ex, y, x, e) if e["fn"].endswith("Left") else mmul(ex, x, y, e)
    ex.write(o, mat(x.r, x.c, v.at))
    return None


@pat(r"^Eigen::(\w+)::(data)$")
def _data(ex, e, o, a):
    return Iter(o if isinstance(o, LV) else ex.temp(ex.rd(o)), 0)


@pat(r"^Eigen::(\w+)::(format)$")
def _format(ex, e, o, a):
    return Opaque("formatted")


@pat(r"^Eigen::(IOFormat|WithFormat|aligned_allocator|NumTraits)::\w+$")
def _iofmt(ex, e, o, a):
    return Opaque("fmt")


@pat(r"^Eigen::internal::.*$")
def _internal(ex, e, o, a):
    if e["fn"].endswith("operator_conv"):
        return _conv(ex, e, o, a)
    return Opaque(e["fn"])


# comma initialiser --------------------------------------------------------------
def comma_init(ex, e, o, a):
    lv = a[0]
    m = ex.rd(lv)
    st = Struct("CommaInit", {"lv": lv if isinstance(lv, LV) else ex.temp(lv), "r": 0, "c": 0, "h": 0})
    return comma_add(ex, st, ex.rd(a[1]), e)


@pat(r"^Eigen::DenseBase::operator<<$")
def _cinit(ex, e, o, a):
    return comma_init(ex, e, o, a)


@pat(r"^Eigen::CommaInitializer::operator,$")
def _cnext(ex, e, o, a):
    return comma_add(ex, ex.rd(a[0]), ex.rd(a[1]), e)


def comma_add(ex, st, v, e):
    lv, r, c, h = st.get("lv"), st.get("r"), st.get("c"), st.get("h")
    m = ex.rd(lv)
    b = M(ex, v)
    full = simp(eq(c, m.c)) if not (isinstance(c, int) and c == 0) else False
    if is_sym(full):
        full = True if ex.known(full) else False if ex.known(not_(full)) else None
        if full is None:
            raise Unsupported("comma initialiser with undecided row break")
    if full:
        r, c = add(r, h), 0
        h = b.r
    elif isinstance(c, int) and c == 0:
        h = b.r
    ex.oblige("comma initialiser stays inside the matrix", and_(le(add(r, b.r), m.r), le(add(c, b.c), m.c)), line=e.get("line"))
    ex.write(lv.sub("blk", r, c, b.r, b.c), b)
    return Struct("CommaInit", {"lv": lv, "r": r, "c": add(c, b.c), "h": h})


@pat(r"^Eigen::CommaInitializer::(finished|dtor)$")
def _cfin(ex, e, o, a):
    return ex.rd(o).get("lv") if e["fn"].endswith("finished") else None


# quaternion, angle-axis -----------------------------------------------------------
@pat(r"^Eigen::Quaternion::ctor$")
def _qctor(ex, e, o, a):
    vals = [ex.rd(x) for x in a]
    if not vals:
        return ex.default_value(T("quat"))
    if len(vals) == 4:
        w, x, y, z = vals
        return colvec(x, y, z, w)
    v = vals[0]
    if isinstance(v, Struct) and v.cls == "Eigen::AngleAxis":
        return aa_quat(ex, v)
    if isinstance(v, Iter):
        s = ex.rd(v.lv)
        p = v.pos
        return mat(4, 1, lambda i, j: s.at(add(p, i), 0) if isinstance(s, Mat) else s.at(add(p, i)))
    if isinstance(v, Mat):
        if v.r == 3 and v.c == 3:
            return quat_of(ex, v)
        return v
    raise Unsupported("quaternion constructor")


def quat_of(ex, R):
    es = [zx(toreal(R.at(i, j))) for i in range(3) for j in range(3)]
    q = mat(4, 1, lambda i, j: ex.uf("quatof%d" % i, es, "real"))
    key = ("quatfact", zx(q.at(0, 0)).get_id())
    if key not in ex.fact_seen:
        ex.fact_seen.add(key)
        ex.assumed.add("Eigen::Quaternion(R) is a unit quaternion whose rotation matrix is R (for rotation matrices R)")
        RR = quat_matrix(q)
        ex.log_facts = getattr(ex, "log_facts", [])
        ex.log_facts.append((q, None, R, [zx(RR.at(i, j)) == es[3 * i + j] for i in range(3) for j in range(3)]
                             + [zx(msum(ex, 0, 4, lambda k: mul(q.at(k, 0), q.at(k, 0)))) == 1]))
    return q


@pat(r"^Eigen::(Quaternion|QuaternionBase)::operator=$")
def _qassign(ex, e, o, a):
    v = ex.rd(a[1])
    if isinstance(v, Struct):
        v = aa_quat(ex, v)
    elif isinstance(v, Mat) and v.r == 3 and v.c == 3:
        v = quat_of(ex, v)
    ex.write(a[0], v)
    return a[0]


@pat(r"^Eigen::(Quaternion|QuaternionBase)::(coeffs|vec|x|y|z|w|toRotationMatrix|matrix|conjugate|normalize|normalized|setIdentity|norm|squaredNorm|dot|_transformVector)$")
def _qmeth(ex, e, o, a):
    nm = e["fn"].split("::")[-1]
    if nm == "coeffs":
        return o
    if nm == "vec":
        return view(ex, o, "blk", 0, 0, 3, 1)
    if nm in "xyzw" and len(nm) == 1:
        i = "xyzw".index(nm)
        return view(ex, o, "e", i, 0)
    q = M(ex, o)
    if nm in ("toRotationMatrix", "matrix"):
        return quat_matrix(q)
    if nm == "conjugate":
        return mat(4, 1, lambda i, j: q.at(i, 0) if i == 3 else neg(q.at(i, 0)))
    if nm == "setIdentity":
        ex.write(o, colvec(0, 0, 0, 1))
        return o
    sq = msum(ex, 0, 4, lambda k: mul(q.at(k, 0), q.at(k, 0)))
    if nm == "squaredNorm":
        return sq
    if nm == "norm":
        return rfun(ex, "sqrt", sq)
    if nm in ("normalize", "normalized"):
        n = rfun(ex, "sqrt", sq)
        r = mat(4, 1, lambda i, j: div(q.at(i, 0), n))
        if nm == "normalize":
            ex.write(o, r)
            return None
        return r
    raise Unsupported(e["fn"])


@pat(r"^Eigen::AngleAxis::ctor$")
def _aactor(ex, e, o, a):
    if not a:
        return ex.default_value(T("aa"))
    vals = [ex.rd(x) for x in a]
    if len(vals) == 2:
        ax = M(ex, vals[1])
        return Struct("Eigen::AngleAxis", {"angle": toreal(vals[0]), "axis": ax})
    v = vals[0]
    if isinstance(v, Struct):
        return v
    if v.r == 3 and v.c == 3:
        return log_of(ex, v)
    return log_of(ex, quat_matrix(v))


@pat(r"^Eigen::AngleAxis::(angle|axis|toRotationMatrix|operator=|matrix|fromRotationMatrix)$")
def _aameth(ex, e, o, a):
    nm = e["fn"].split("::")[-1]
    if nm == "operator=":
        v = ex.rd(a[1])
        if isinstance(v, Mat):
            v = log_of(ex, v if v.r == 3 else quat_matrix(v))
        ex.write(a[0], v)
        return a[0]
    if nm in ("angle", "axis"):
        if isinstance(o, LV):
            return o.sub("f", nm)
        return o.get(nm)
    if nm == "fromRotationMatrix":
        v = log_of(ex, M(ex, a[0]))
        ex.write(o, v)
        return o
    return aa_matrix(ex, ex.rd(o))


@pat(r"^Eigen::RotationBase::(toRotationMatrix|operator\*|matrix|inverse|operator_conv)$")
def _rotb(ex, e, o, a):
    if e["fn"].endswith("*"):
        return _arith(ex, e, o, a)
    if e["fn"].endswith("inverse"):
        v = ex.rd(o)
        if isinstance(v, Struct):
            return v.with_("angle", neg(v.get("angle")))
    return rot_of(ex, o)


@pat(r"^Eigen::(\w+)::eulerAngles$")
def _euler(ex, e, o, a):
    """contract: e = eulerAngles(a0,a1,a2) satisfies R(a0,e0) R(a1,e1) R(a2,e2) = R for every rotation R"""
    R = M(ex, o)
    ids = tuple(ex.rd(x) for x in a)
    es = [zx(toreal(R.at(i, j))) for i in range(3) for j in range(3)]
    v = mat(3, 1, lambda i, j: ex.uf("euler%d%d%d.%d" % (ids + (i,)), es, "real"))
    key = ("eulerfact", zx(v.at(0, 0)).get_id())
    if key not in ex.fact_seen:
        ex.fact_seen.add(key)
        ex.assumed.add("Eigen eulerAngles(i,j,k) returns angles whose elementary rotations compose to R (for rotation matrices R)")
        P = None
        for n, ax in enumerate(ids):
            A = elem_rot(ex, ax, v.at(n, 0))
            P = A if P is None else mmul(ex, P, A)
        ex.log_facts = getattr(ex, "log_facts", [])
        ex.log_facts.append((v, None, R, [zx(P.at(i, j)) == es[3 * i + j] for i in range(3) for j in range(3)]))
    return v


def elem_rot(ex, ax, th):
    s, c = rfun(ex, "sin", th), rfun(ex, "cos", th)
    o, z = Fraction(1), Fraction(0)
    if ax == 0:
        return from_rows([[o, z, z], [z, c, neg(s)], [z, s, c]])
    if ax == 1:
        return from_rows([[c, z, s], [z, o, z], [neg(s), z, c]])
    return from_rows([[c, neg(s), z], [s, c, z], [z, z, o]])


# SVD: opaque factors ---------------------------------------------------------------
@pat(r"^Eigen::(JacobiSVD|SVDBase|FullPivLU|LDLT|LLT|HouseholderQR|ColPivHouseholderQR|PartialPivLU)::(\w+|operator=)$")
def _svd(ex, e, o, a):
    return Opaque("svd")
