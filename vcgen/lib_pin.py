"""Contracts of the pinocchio spatial operations used by the code under verification (assumed: the package is absent).
Spatial vectors are (linear, angular)."""
from .values import *
from .lib_std import pat
from .lib_eigen import M, mmul, cross3, mat


def total(*xs):
    r = xs[0]
    for x in xs[1:]:
        r = add(r, x)
    return r


def part(m, r0, c0, r, c):
    return mat(r, c, lambda i, j: m.at(add(i, r0) if r > 1 else r0, add(j, c0) if c > 1 else c0))


def tr(m):
    return mat(m.c, m.r, lambda i, j: m.at(j, i))


def stack(a, b):
    return mat(6, 1, lambda i, j: ite(lt(i, 3), a.at(i, 0), b.at(sub(i, 3), 0)) if is_sym(i) else (a.at(i, 0) if i < 3 else b.at(i - 3, 0)))


def plus(a, b, f=add):
    return mat(3, 1, lambda i, j: f(a.at(i, 0), b.at(i, 0)))


@pat(r"^pinocchio::(SE3|Motion|Force)(Tpl<.*>|Tpl)?::ctor$")
def _ctor(ex, e, o, a):
    cls = "SE3" if "::SE3" in e["fn"] else "Motion" if "::Motion" in e["fn"] else "Force"
    if cls == "SE3":
        if not a:
            z = lambda i, j: 1 if i == j else 0
            return Struct("pinocchio::SE3", {"R": mat(3, 3, lambda i, j: toreal(ite(eq(i, j), 1, 0))), "p": mat(3, 1, lambda i, j: Fraction(0))})
        m = M(ex, a[0])
        if len(a) == 2:
            return Struct("pinocchio::SE3", {"R": m, "p": M(ex, a[1])})
        ex.oblige("homogeneous matrix: 4 x 4", and_(eq(m.r, 4), eq(m.c, 4)), line=e.get("line"))
        return Struct("pinocchio::SE3", {"R": part(m, 0, 0, 3, 3), "p": part(m, 0, 3, 3, 1)})
    m = M(ex, a[0])
    if len(a) == 2:
        m = stack(m, M(ex, a[1]))
    ex.oblige("spatial vector: 6 entries", and_(eq(m.r, 6), eq(m.c, 1)), line=e.get("line"))
    return Struct("pinocchio::" + cls, {"v": m})


@pat(r"^pinocchio::(\w+)(<.*>)?::(toVector|linear|angular|rotation|translation)$")
def _parts(ex, e, o, a):
    v, nm = ex.rd(o), e["fn"].split("::")[-1]
    if nm in ("rotation", "translation"):
        return v.get("R" if nm == "rotation" else "p")
    m = v.get("v")
    return m if nm == "toVector" else part(m, 0 if nm == "linear" else 3, 0, 3, 1)


@pat(r"^pinocchio::(\w+)(<.*>)?::(act|actInv)$")
def _act(ex, e, o, a):
    s, v, inv = ex.rd(o), ex.rd(a[0]), e["fn"].endswith("Inv")
    ex.assumed.add("pinocchio::SE3::act / actInv transport motions and forces as rigid displacements do")
    R, p, m = s.get("R"), s.get("p"), v.get("v")
    l, w = part(m, 0, 0, 3, 1), part(m, 3, 0, 3, 1)
    if v.cls == "pinocchio::Force":
        l, w = w, l       # a force transports (angular, linear) the way a motion transports (linear, angular)
    if inv:
        r1, r0 = mmul(ex, tr(R), w), mmul(ex, tr(R), plus(l, cross3(p, w), sub))
    else:
        r1 = mmul(ex, R, w)
        r0 = plus(mmul(ex, R, l), cross3(p, r1))
    if v.cls == "pinocchio::Force":
        r0, r1 = r1, r0
    return Struct(v.cls, {"v": stack(r0, r1)})


@pat(r"^pinocchio::(CartesianProductOperation|SpecialEuclideanOperationTpl)::(difference|dDifference)$")
def _difference(ex, e, o, a):
    """difference of two configurations (translation, quaternion) and its partial derivatives: uninterpreted"""
    nm = e["fn"].split("::")[-1]
    grp = "R3xSO3" if "Cartesian" in e["fn"] else "SE3"
    ex.assumed.add("pinocchio's %s of two %s configurations is what its documentation says (assumed, uninterpreted)" % (nm, grp))
    q0, q1 = M(ex, a[0]), M(ex, a[1])
    for q in (q0, q1):
        ex.oblige("configuration: 7 entries", and_(eq(q.r, 7), eq(q.c, 1)), line=e.get("line"))
    which = next((x for x in e.get("ta", []) if "ARG" in x), "") if nm == "dDifference" else ""
    ex.write(a[2], diff_of(ex, grp, nm + which.split("::")[-1], q0, q1))


def diff_of(ex, grp, nm, q0, q1):
    es = [q0.at(i, 0) for i in range(7)] + [q1.at(i, 0) for i in range(7)]
    if nm == "difference":
        return mat(6, 1, lambda i, j: ex.uf("%s difference" % grp, [i] + es, "real"))
    return mat(6, 6, lambda i, j: ex.uf("%s %s" % (grp, nm), [i, j] + es, "real"))


@pat(r"^pinocchio::SpecialEuclideanOperationTpl::integrate$")
def _integrate(ex, e, o, a):
    """the configuration (translation, unit quaternion) reached from q with the velocity v: uninterpreted, its quaternion of norm 1"""
    q, v = M(ex, a[0]), M(ex, a[1])
    ex.oblige("configuration: 7 entries", and_(eq(q.r, 7), eq(q.c, 1)), line=e.get("line"))
    ex.oblige("velocity: 6 entries", and_(eq(v.r, 6), eq(v.c, 1)), line=e.get("line"))
    ex.assumed.add("pinocchio's SE(3) integration reaches the configuration its documentation says (assumed, uninterpreted; its quaternion has norm 1)")
    y = integral_of(ex, q, v)
    ex.pin_integrals = getattr(ex, "pin_integrals", []) + [(q, v, y)]
    ex.write(a[2], y)


def integral_of(ex, q, v):
    es = [toreal(q.at(i, 0)) for i in range(7)] + [toreal(v.at(i, 0)) for i in range(6)]
    y = mat(7, 1, lambda i, j: ex.uf("SE3 integral", [i] + es, "real"))
    ex.st = ex.st.assume(zx(eq(total(*[mul(y.at(k, 0), y.at(k, 0)) for k in range(3, 7)]), 1)))
    return y
