from vcgen.spec import *
from .c25 import sigis

ID = "C19"
DRIVER = dict(src="c19.cpp", repo=["src/debug/debug.cpp", "src/feature/feature-generic.cpp", "src/feature/feature-posture.cpp", "src/feature/feature-joint-limits.cpp", "src/feature/feature-1d.cpp", "src/feature/feature-vector3.cpp",
                                   "src/feature/feature-abstract.cpp", "src/sot/flags.cpp", "src/exception/*.cpp", "src/factory/pool.cpp"], scan=["include/sot/core/feature-*.hh"])
ASSUMPTIONS = ["the error of a generic feature keeps the length it had when its dimension was first asked (the dimension is established once), and its Jacobian has a row per component",
               "position, limits and references of one feature have the same length (asserted in debug builds only)",
               "the dimension signal holds the number of selected components (what getDimension is proved to compute)"]
V = "Eigen::VectorXd"
M = "Eigen::MatrixXd"
X = "dynamicgraph::sot::ExceptionFeature"


def flags(c, F):
    fl = F.get("flags")
    c.assume(lt(fl.n, 2 ** 31))
    return lambda j: ite(lt(j, fl.n), fl.at(j), F.get("outOfRangeFlag"))


def cases(S):
    ge_ = S.tu("src/feature/feature-generic.cpp", "src/feature/feature-abstract.cpp", "src/sot/flags.cpp")
    po = S.tu("src/feature/feature-posture.cpp", "src/feature/feature-abstract.cpp", "src/sot/flags.cpp")
    jl = S.tu("src/feature/feature-joint-limits.cpp", "src/feature/feature-abstract.cpp", "src/sot/flags.cpp")
    f1 = S.tu("src/feature/feature-1d.cpp", "src/feature/feature-abstract.cpp")
    f3 = S.tu("src/feature/feature-vector3.cpp", "src/feature/feature-abstract.cpp")

    def gen(c, cls, dim=None):
        o, t = c.obj(cls, "f"), c.int("time")
        sel = flags(c, c.sig(o, "selectionSIN", t))
        rank = c.sumf(lambda j: ite(sel(j), 1, 0))
        return o, t, sel, rank

    for first in (True, False):
        def mk(first):
            @S.case("generic: dimension, %s" % ("first use" if first else "later"), ge_)
            def _(c):
                o, t, sel, rank = gen(c, "FeatureGeneric")
                e = c.sig(o, "errorSIN", t)
                c.assume(and_(lt(e.r, 2 ** 31), eq(c.get(o, "dimensionDefault"), 0 if first else e.r)))
                d = c.uninit("unsigned int", "dim")
                pre = c.snapshot()
                c.call("FeatureGeneric::getDimension", o, d, t)
                c.no_throw("never throws", pre)
                c.ensure("number of selected components", eq(c.get(d), rank(e.r)))
                c.ensure("the length of the error is remembered", eq(c.get(o, "dimensionDefault"), e.r))
                c.frame("nothing else changes", o, pre, ("dimensionDefault",))
        mk(first)

    for ref in (False, True):
        def mk2(ref):
            @S.case("generic: error, %s reference" % ("with" if ref else "without"), ge_)
            def _(c):
                o, t, sel, rank = gen(c, "FeatureGeneric")
                e = c.sig(o, "errorSIN", t)
                c.assume(lt(e.r, 2 ** 31))
                sigis(c, o, "dimensionSOUT", t, rank(e.r))
                q = c.obj("FeatureGeneric", "r")
                c.set(o, "ptr", c.addr(q) if ref else NULL)
                r = c.uninit(V, "res")
                pre = c.snapshot()
                c.call("FeatureGeneric::computeError", o, r, t)
                i, j = c.int("i"), c.q("j")
                if ref:
                    d = c.sig(q, "errorSIN", t)
                    c.throws_iff("refused exactly when the reference lacks a selected component", z3.Exists([j], zx(and_(rng(j, e.r), sel(j), ge(j, d.r)))), pre, X)
                else:
                    c.no_throw("never throws", pre)
                y = c.get(r)
                c.ensure("as many entries as selected components", and_(eq(y.r, rank(e.r)), eq(y.c, 1)))
                c.ensure("selected component i at its rank", implies(and_(rng(i, e.r), sel(i)), eq(y.at(rank(i), 0), sub(e.at(i, 0), d.at(i, 0)) if ref else e.at(i, 0))))
                c.frame("feature unchanged", o, pre)
        mk2(ref)

    @S.case("generic: Jacobian", ge_)
    def _(c):
        o, t, sel, rank = gen(c, "FeatureGeneric")
        J = c.sig(o, "jacobianSIN", t)
        c.assume(lt(J.r, 2 ** 31))
        n = c.nat("n")
        c.assume(le(n, J.r))
        sigis(c, o, "dimensionSOUT", t, rank(n))
        r = c.uninit(M, "res")
        pre = c.snapshot()
        c.call("FeatureGeneric::computeJacobian", o, r, t)
        c.no_throw("never throws", pre)
        y, i, j = c.get(r), c.int("i"), c.int("j")
        c.ensure("a row per selected component", and_(eq(y.r, rank(n)), eq(y.c, J.c)))
        c.ensure("row of the selected component i at its rank", implies(and_(rng(i, n), sel(i), rng(j, J.c)), eq(y.at(rank(i), j), J.at(i, j))))
        c.frame("feature unchanged", o, pre)

    for ref in (0, 1, 2):
        def mk3(ref):
            @S.case("error rate, %s" % ("no reference", "reference without rate", "reference with rate")[ref], ge_)
            def _(c):
                o, t, sel, rank = gen(c, "FeatureGeneric")
                n = c.nat("n")
                c.assume(lt(n, 2 ** 31))
                sigis(c, o, "dimensionSOUT", t, rank(n))
                q = c.obj("FeatureGeneric", "r")
                c.set(o, "ptr", c.addr(q) if ref else NULL)
                if ref:
                    c.assume(eq(zx(c.plugged(q, "errordotSIN")), ref == 2))
                r = c.uninit(V, "res")
                pre = c.snapshot()
                c.call("FeatureAbstract::computeErrorDot", o, r, t)
                i, j = c.int("i"), c.q("j")
                if ref == 2:
                    d = c.sig(q, "errordotSIN", t)
                    c.assume(lt(d.r, 2 ** 31))
                    c.throws_iff("refused exactly when the reference lacks a selected component", z3.Exists([j], zx(and_(rng(j, n), sel(j), ge(j, d.r)))), pre, X)
                else:
                    c.no_throw("never throws", pre)
                y = c.get(r)
                c.ensure("as many entries as selected components", and_(eq(y.r, rank(n)), eq(y.c, 1)))
                if ref == 2:
                    c.ensure("minus the selected component i of the reference's rate at its rank", implies(and_(rng(i, n), sel(i)), eq(y.at(rank(i), 0), neg(d.at(i, 0)))))
                else:
                    c.ensure("zero", implies(rng(i, rank(n)), eq(y.at(i, 0), 0)))
        mk3(ref)

    def post(c):
        o, t = c.obj("FeaturePosture", "f"), c.int("time")
        a = c.get(o, "activeDofs_")
        rank = c.sumf(lambda j: ite(a.at(j), 1, 0))
        c.assume(eq(c.get(o, "nbActiveDofs_"), rank(a.n)))
        return o, t, a, rank

    @S.case("posture: dimension", po)
    def _(c):
        o, t, a, rank = post(c)
        c.assume(lt(a.n, 2 ** 32))
        d = c.uninit("unsigned int", "dim")
        pre = c.snapshot()
        c.call("FeaturePosture::getDimension", o, d, t, pred=lambda f: len(f["params"]) == 2)
        c.no_throw("never throws", pre)
        c.ensure("number of selected joints", eq(c.get(d), rank(a.n)))

    for rate in (False, True):
        def mk4(rate):
            @S.case("posture: %s" % ("error rate" if rate else "error"), po)
            def _(c):
                o, t, a, rank = post(c)
                r = c.uninit(V, "res")
                p = c.sig(o, "postureDot_" if rate else "posture_", t)
                c.assume(eq(p.r, a.n))
                if not rate:
                    s = c.sig(o, "state_", t)
                    c.assume(eq(s.r, a.n))
                pre = c.snapshot()
                c.call("FeaturePosture::computeErrorDot" if rate else "FeaturePosture::computeError", o, r, t)
                c.no_throw("never throws", pre)
                y, i = c.get(r), c.int("i")
                c.ensure("as many entries as selected joints", and_(eq(y.r, rank(a.n)), eq(y.c, 1)))
                c.ensure("selected joint i at its rank", implies(and_(rng(i, a.n), a.at(i)), eq(y.at(rank(i), 0), neg(p.at(i, 0)) if rate else sub(s.at(i, 0), p.at(i, 0)))))
                c.frame("feature unchanged", o, pre)
        mk4(rate)

    @S.case("posture: the Jacobian is never recomputed by the signal", po)
    def _(c):
        o, t, a, rank = post(c)
        r = c.uninit(M, "res")
        pre = c.snapshot()
        c.call("FeaturePosture::computeJacobian", o, r, t)
        c.throws_iff("refused", True, pre)

    for same in (True, False):
        def mk5(same):
            @S.case("posture: selecting a joint, %s" % ("usual" if same else "new number of joints"), po)
            def _(c):
                o, t, a, rank = post(c)
                s, p = c.sig(o, "state_", None), c.sig(o, "posture_", None)
                k, ctl = c.nat("dof"), c.bool("control")
                n = s.r
                c.assume(eq(n, a.n) if same else ne(n, a.n))
                pre = c.snapshot()
                c.call("FeaturePosture::selectDof", o, k, ctl)
                c.throws_iff("refused exactly when the sizes differ or there is no such joint", or_(ne(n, p.r), ge(k, n)), pre)
                c.on_throw("a refused selection changes nothing", lambda st, v: and_(*[c.eqv(c.at(st, o, f), c.at(pre, o, f)) for f in ("activeDofs_", "nbActiveDofs_", "jacobianSOUT")]))
                b, i, j = c.get(o, "activeDofs_"), c.int("i"), c.int("j")
                was = a.at(i) if same else False
                c.ensure("a flag per joint", eq(b.n, n))
                c.ensure("exactly that joint's flag takes the value", implies(rng(i, n), eq(zx(b.at(i)), zx(ite(eq(i, k), ctl, was)))))
                rk = c.sumf(lambda j: ite(b.at(j), 1, 0))
                c.ensure("the count of active joints is the number selected", eq(c.get(o, "nbActiveDofs_"), rk(n)))
                J = c.sig(o, "jacobianSOUT", c.int("t2"))
                c.ensure("a row per selected joint", and_(eq(J.r, rk(n)), eq(J.c, n)))
                c.ensure("row selection of the identity", implies(and_(rng(i, n), b.at(i), rng(j, n)), eq(J.at(rk(i), j), ite(eq(i, j), 1, 0))))
        mk5(same)

    @S.case("posture: initial state", po)
    def _(c):
        c.ex.contracts["dynamicgraph::sot::PoolStorage::getInstance"] = lambda ex, o_, a, e: c.ptr("dynamicgraph::sot::PoolStorage", "pool.instance")
        c.ex.contracts["dynamicgraph::sot::PoolStorage::registerFeature"] = lambda ex, o_, a, e: None      # property C23
        o = c.construct("FeaturePosture", z3.String("name"))
        J = c.sig(o, "jacobianSOUT", c.int("t"))
        c.ensure("no joint is selected", and_(eq(c.get(o, "activeDofs_").n, 0), eq(c.get(o, "nbActiveDofs_"), 0), eq(J.r, 0)))

    def lim(c):
        o, t, sel, rank = gen(c, "FeatureJointLimits")
        u, l = c.sig(o, "upperJlSIN", t), c.sig(o, "lowerJlSIN", t)
        c.assume(and_(eq(u.r, l.r), lt(u.r, 2 ** 31)))
        return o, t, sel, rank, u, l

    @S.case("joint limits: dimension", jl)
    def _(c):
        o, t, sel, rank, u, l = lim(c)
        d = c.uninit("unsigned int", "dim")
        pre = c.snapshot()
        c.call("FeatureJointLimits::getDimension", o, d, t, pred=lambda f: len(f["params"]) == 2)
        c.no_throw("never throws", pre)
        c.ensure("number of selected joints", eq(c.get(d), rank(u.r)))
        c.frame("feature unchanged", o, pre)

    @S.case("joint limits: range widths", jl)
    def _(c):
        o, t, sel, rank, u, l = lim(c)
        r = c.uninit(V, "res")
        pre = c.snapshot()
        c.call("FeatureJointLimits::computeWidthJl", o, r, c.put(t))
        c.no_throw("never throws", pre)
        y, i = c.get(r), c.int("i")
        c.ensure("a width per joint", and_(eq(y.r, u.r), eq(y.c, 1)))
        c.ensure("upper minus lower limit", implies(rng(i, u.r), eq(y.at(i, 0), sub(u.at(i, 0), l.at(i, 0)))))

    for jac in (False, True):
        def mk6(jac):
            @S.case("joint limits: %s" % ("Jacobian" if jac else "error"), jl)
            def _(c):
                o, t, sel, rank, u, l = lim(c)
                q, w = c.sig(o, "jointSIN", t), c.sig(o, "widthJlSINTERN", t)
                n = u.r
                i, j, k = c.int("i"), c.int("j"), c.q("k")
                c.assume(and_(eq(q.r, n), eq(w.r, n)))
                if not jac:
                    c.assume(z3.ForAll([k], zx(implies(and_(rng(k, n), sel(k)), ne(w.at(k, 0), 0)))))
                sigis(c, o, "dimensionSOUT", t, rank(n))
                r = c.uninit(M if jac else V, "res")
                pre = c.snapshot()
                c.call("FeatureJointLimits::computeJacobian" if jac else "FeatureJointLimits::computeError", o, r, t)
                c.no_throw("never throws", pre)
                y = c.get(r)
                if jac:
                    c.ensure("a row per selected joint", and_(eq(y.r, rank(n)), eq(y.c, n)))
                    wi = w.at(i, 0)
                    big = or_(gt(wi, R(1, 1000)), lt(wi, R(-1, 1000)))
                    v = ite(big, div(1, wi), 1)
                    c.ensure("row of the selected joint i at its rank: the inverse of its range on the diagonal", implies(and_(rng(i, n), sel(i), rng(j, n)), eq(y.at(rank(i), j), ite(eq(i, j), v, 0))))
                else:
                    c.ensure("as many entries as selected joints", and_(eq(y.r, rank(n)), eq(y.c, 1)))
                    c.ensure("normalised position of the selected joint i at its rank", implies(and_(rng(i, n), sel(i)), eq(y.at(rank(i), 0), sub(mul(2, div(sub(q.at(i, 0), l.at(i, 0)), w.at(i, 0))), 1))))
                c.frame("feature unchanged", o, pre)
        mk6(jac)

    @S.case("scalar: dimension", f1)
    def _(c):
        o, d = c.obj("Feature1D", "f"), c.uninit("unsigned int", "dim")
        c.call("Feature1D::getDimension", o, d, c.int("t"), pred=lambda f: len(f["params"]) == 2)
        c.ensure("one", eq(c.get(d), 1))

    @S.case("scalar: error", f1)
    def _(c):
        o, t, r = c.obj("Feature1D", "f"), c.int("t"), c.uninit(V, "res")
        e = c.sig(o, "errorSIN", t)
        pre = c.snapshot()
        c.call("Feature1D::computeError", o, r, t)
        c.no_throw("never throws", pre)
        y = c.get(r)
        c.ensure("one entry", and_(eq(y.r, 1), eq(y.c, 1)))
        c.ensure("half the squared norm of the input error", eq(mul(2, y.at(0, 0)), c.sumf(lambda i: mul(e.at(i, 0), e.at(i, 0)))(e.r)))

    @S.case("scalar: Jacobian", f1)
    def _(c):
        o, t, r = c.obj("Feature1D", "f"), c.int("t"), c.uninit(M, "res")
        e, J = c.sig(o, "errorSIN", t), c.sig(o, "jacobianSIN", t)
        c.assume(eq(J.r, e.r))
        pre = c.snapshot()
        c.call("Feature1D::computeJacobian", o, r, t)
        c.no_throw("never throws", pre)
        y, j = c.get(r), c.int("j")
        c.ensure("one row", and_(eq(y.r, 1), eq(y.c, J.c)))
        c.ensure("input error times Jacobian", implies(rng(j, J.c), eq(y.at(0, j), c.sumf(lambda i: mul(e.at(i, 0), J.at(i, j)))(e.r))))

    @S.case("3D vector: dimension", f3)
    def _(c):
        o, d = c.obj("FeatureVector3", "f"), c.uninit("unsigned int", "dim")
        c.call("FeatureVector3::getDimension", o, d, c.int("t"), pred=lambda f: len(f["params"]) == 2)
        c.ensure("three", eq(c.get(d), 3))

    def v3(c):
        o, t = c.obj("FeatureVector3", "f"), c.int("t")
        v, m = c.sig(o, "vectorSIN", t), c.sig(o, "positionSIN", t)
        c.assume(and_(eq(v.r, 3), eq(v.c, 1)))
        return o, t, v, m

    @S.case("3D vector: error", f3)
    def _(c):
        o, t, v, m = v3(c)
        d, r = c.sig(o, "positionRefSIN", t), c.uninit(V, "res")
        c.assume(and_(eq(d.r, 3), eq(d.c, 1)))
        pre = c.snapshot()
        c.call("FeatureVector3::computeError", o, r, t)
        c.no_throw("never throws", pre)
        y = c.get(r)
        c.ensure("three entries", and_(eq(y.r, 3), eq(y.c, 1)))
        for i in range(3):
            c.ensure("rotated vector minus reference, component %d" % i, eq(y.at(i, 0), sub(total(*[mul(m.at(i, k), v.at(k, 0)) for k in range(3)]), d.at(i, 0))))

    @S.case("3D vector: Jacobian", f3)
    def _(c):
        o, t, v, m = v3(c)
        J, r = c.sig(o, "articularJacobianSIN", t), c.uninit(M, "res")
        c.assume(eq(J.r, 6))
        pre = c.snapshot()
        c.call("FeatureVector3::computeJacobian", o, r, t)
        c.no_throw("never throws", pre)
        y, j = c.get(r), c.int("j")
        c.ensure("a row per component", and_(eq(y.r, 3), eq(y.c, J.c)))
        w = lambda k: J.at(k + 3, j)
        # derivative of R v for a body-frame angular velocity w: R (w x v)
        cr = [sub(mul(w(1), v.at(2, 0)), mul(w(2), v.at(1, 0))), sub(mul(w(2), v.at(0, 0)), mul(w(0), v.at(2, 0))), sub(mul(w(0), v.at(1, 0)), mul(w(1), v.at(0, 0)))]
        for i in range(3):
            c.ensure("derivative of component %d" % i, implies(rng(j, J.c), eq(y.at(i, j), total(*[mul(m.at(i, k), cr[k]) for k in range(3)]))))

    A = "FeatureAbstract::"
    out = {"errorSOUT": A + "computeError", "errordotSOUT": A + "computeErrorDot", "jacobianSOUT": A + "computeJacobian", "dimensionSOUT": A + "getDimension"}
    fl = ["src/feature/feature-abstract.cpp", "src/sot/flags.cpp"]
    for f, src, more in (("FeatureGeneric", "feature-generic", {}), ("FeaturePosture", "feature-posture", {}), ("FeatureJointLimits", "feature-joint-limits", {"widthJlSINTERN": "FeatureJointLimits::computeWidthJl"}),
                         ("Feature1D", "feature-1d", {}), ("FeatureVector3", "feature-vector3", {})):
        S.wiring(S.tu("src/feature/%s.cpp" % src, *fl), f, dict(out, **more))
