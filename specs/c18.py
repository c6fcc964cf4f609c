from vcgen.spec import *
from .c19 import flags
from .c25 import sigis
from .c18p import pose_cases

ID = "C18"
DRIVER = dict(src="c18.cpp", repo=["src/debug/debug.cpp", "src/feature/feature-point6d.cpp", "src/feature/feature-pose.cpp", "src/feature/feature-abstract.cpp", "src/sot/flags.cpp", "src/exception/*.cpp", "src/factory/pool.cpp"],
              scan=["include/sot/core/feature-point6d.hh", "include/sot/core/feature-pose.hxx", "include/sot/core/matrix-geometry.hh"])
ASSUMPTIONS = ["poses are rigid: the linear part is a rotation",
               "the dimension signal holds the number of selected components (what getDimension is proved to compute)",
               "the point's Jacobian has 6 rows, the reference's velocity 6 components",
               "pinocchio's difference on SE(3) and R3xSO(3) and its derivatives (assumed, uninterpreted)",
               "recomputing a signal at a time brings the copies of the signals it is computed from to that time"]
V, M, X = "Eigen::VectorXd", "Eigen::MatrixXd", "dynamicgraph::sot::ExceptionFeature"
Q = "FeaturePoint6d"


def cross(a, b):
    return [sub(mul(a[p], b[q]), mul(a[q], b[p])) for p, q in ((1, 2), (2, 0), (0, 1))]


def cases(S):
    tu = S.tu("src/feature/feature-point6d.cpp", "src/feature/feature-abstract.cpp", "src/sot/flags.cpp")
    dot = lambda a, b: total(*[mul(x, y) for x, y in zip(a, b)])

    def parts(c, m):
        R = mat(3, 3, lambda i, j: m.at(i, j))
        c.rotation(R)
        return R, [m.at(i, 3) for i in range(3)]

    def setup(c, frame, ref):
        o, t = c.obj(Q, "f"), c.int("time")
        sel = flags(c, c.sig(o, "selectionSIN", t))
        rank = lambda i: total(0, *[ite(sel(j), 1, 0) for j in range(i)])
        sigis(c, o, "dimensionSOUT", t, rank(6))
        q = c.obj(Q, "r")
        c.set(o, "ptr", c.addr(q) if ref else NULL)
        if frame is not None:
            c.assume(eq(c.get(o, "computationFrame_"), frame))
        R, x = parts(c, c.sig(o, "positionSIN", t))
        if ref:
            Rd, xd = parts(c, c.sig(q, "positionSIN", t))
        else:
            Rd, xd = mat(3, 3, lambda i, j: Fraction(int(i == j))), [Fraction(0)] * 3
        return o, t, sel, rank, q, R, x, Rd, xd

    tr = lambda A, v: [dot([A.at(k, i) for k in range(3)], v) for i in range(3)]
    tmul = lambda A, B: mat(3, 3, lambda i, j: dot([A.at(k, i) for k in range(3)], [B.at(k, j) for k in range(3)]))

    @S.case("dimension", tu)
    def _(c):
        o, t = c.obj(Q, "f"), c.int("time")
        sel = flags(c, c.sig(o, "selectionSIN", t))
        d = c.uninit("unsigned int", "dim")
        pre = c.snapshot()
        c.call(Q + "::getDimension", o, d, t)
        c.no_throw("never throws", pre)
        c.ensure("number of selected components", eq(c.get(d), total(0, *[ite(sel(j), 1, 0) for j in range(6)])))
        c.frame("nothing changes", o, pre)

    DES, CUR = 0, 1
    for frame, ref in ((CUR, True), (CUR, False), (DES, True), (DES, False)):
        def mk(frame, ref):
            nm = "%s frame, %s reference" % ("current" if frame == CUR else "desired", "with" if ref else "without")

            @S.case("error, " + nm, tu)
            def _(c):
                o, t, sel, rank, q, R, x, Rd, xd = setup(c, frame, ref)
                r = c.uninit(V, "res")
                pre = c.snapshot()
                c.call(Q + "::computeError", o, r, t)
                c.no_throw("never throws", pre)
                y = c.get(r)
                c.ensure("as many entries as selected components", and_(eq(y.r, rank(6)), eq(y.c, 1)))
                d = [sub(xd[i], x[i]) for i in range(3)]
                tl = tr(R, d) if frame == CUR else tr(Rd, [neg(v) for v in d])
                u = lib_eigen.log_of(c.ex, tmul(R, Rd) if frame == CUR else tmul(Rd, R))
                for i in range(3):
                    c.ensure("translation component %d at its rank" % i, implies(sel(i), eq(y.at(rank(i), 0), tl[i])))
                for i in range(3):
                    c.ensure("rotation component %d at its rank" % i, implies(sel(i + 3), eq(y.at(rank(i + 3), 0), mul(u.get("angle"), u.get("axis").at(i, 0)))))
                c.frame("feature unchanged", o, pre, ["error_th_"])

            @S.case("Jacobian, " + nm, tu)
            def _(c):
                o, t, sel, rank, q, R, x, Rd, xd = setup(c, frame, ref)
                J = c.sig(o, "articularJacobianSIN", t)
                c.assume(and_(eq(J.r, 6), lt(J.c, 2 ** 31)))
                r = c.uninit(M, "res")
                pre = c.snapshot()
                c.call(Q + "::computeJacobian", o, r, t)
                c.no_throw("never throws", pre)
                y, j = c.get(r), c.int("j")
                c.ensure("a row per selected component", and_(eq(y.r, rank(6)), eq(y.c, J.c)))
                c.assume(rng(j, J.c))
                v, w = [J.at(k, j) for k in range(3)], [J.at(k + 3, j) for k in range(3)]
                H = tmul(Rd, R)
                mv = lambda A, b: [dot([A.at(i, k) for k in range(3)], b) for i in range(3)]
                if frame == CUR:
                    lin = [sub(p, s) for p, s in zip(cross(tr(R, [sub(xd[i], x[i]) for i in range(3)]), w), v)]
                    ang = [neg(p) for p in mv(H, w)]
                else:
                    lin, ang = mv(H, v), mv(H, w)
                for i in range(3):
                    c.ensure("translation row %d at its rank" % i, implies(sel(i), eq(y.at(rank(i), j), lin[i])))
                    c.ensure("rotation row %d at its rank" % i, implies(sel(i + 3), eq(y.at(rank(i + 3), j), ang[i])))
                c.frame("feature unchanged", o, pre)

            @S.case("error rate, " + nm, tu)
            def _(c):
                o, t, sel, rank, q, R, x, Rd, xd = setup(c, frame, ref)
                L = lib_eigen.log_of(c.ex, tmul(R, Rd) if frame == CUR else tmul(Rd, R))
                jac = lambda u: mat(3, 3, lambda i, j: c.ex.uf("inverse of the Jacobian of the rotation vector %d %d" % (i, j), [u.get("angle")] + [u.get("axis").at(k, 0) for k in range(3)], "real"))
                P = jac(L)
                # the error's rotation vector is the one of the error at that time, once it has been recomputed
                c.ex.sig_values["recompute"] = lambda ex, lv, tt: ex.write(o.sub("f", "error_th_"), L) if ex.rd(lv).sid == c.get(o, "errorSOUT").sid and same(tt, t) else None
                c.ex.contracts["dynamicgraph::sot::%s::inverseJacobianRodrigues" % Q] = lambda ex, o_, a, e: ex.write(o_.sub("f", "Pinv_"), jac(ex.rd(o_.sub("f", "error_th_"))))
                r = c.uninit(V, "res")
                if ref:
                    s = c.sig(q, "velocitySIN", t)
                    c.assume(eq(s.r, 6))
                    v, w = [s.at(k, 0) for k in range(3)], [s.at(k + 3, 0) for k in range(3)]
                pre = c.snapshot()
                c.call(Q + "::computeErrordot", o, r, t)
                c.no_throw("never throws", pre)
                y = c.get(r)
                c.ensure("as many entries as selected components", and_(eq(y.r, rank(6)), eq(y.c, 1)))
                mv = lambda A, b: [dot([A.at(i, k) for k in range(3)], b) for i in range(3)]
                if not ref:
                    lin, ang = [Fraction(0)] * 3, [Fraction(0)] * 3
                elif frame == CUR:
                    lin, ang = tr(R, v), mv(P, tr(Rd, w))
                else:
                    lin = tr(Rd, [sub(p, s_) for p, s_ in zip(cross(w, [sub(xd[i], x[i]) for i in range(3)]), v)])
                    ang = [neg(p) for p in mv(P, tr(R, w))]
                for i in range(3):
                    c.ensure("translation rate %d at its rank" % i, implies(sel(i), eq(y.at(rank(i), 0), lin[i])))
                    c.ensure("rotation rate %d at its rank" % i, implies(sel(i + 3), eq(y.at(rank(i + 3), 0), ang[i])))
        mk(frame, ref)

    for small in (True, False):
        def mkp(small):
            @S.case("rate of the rotation vector, %s rotation" % ("negligible" if small else "other"), tu)
            def _(c):
                o = c.obj(Q, "f")
                u = c.get(o, "error_th_")
                r = [mul(u.get("angle"), u.get("axis").at(k, 0)) for k in range(3)]
                n2, acc = dot(r, r), c.get(o, "accuracy_")
                c.assume(gt(acc, 0))
                c.assume(lt(n2, acc) if small else ge(n2, acc))
                pre = c.snapshot()
                c.call(Q + "::inverseJacobianRodrigues", o)
                c.no_throw("never throws", pre)
                P, Pi = c.get(o, "P_"), c.get(o, "Pinv_")
                th = lib_eigen.rfun(c.ex, "sqrt", n2)
                co, si = lib_eigen.rfun(c.ex, "cos", th), lib_eigen.rfun(c.ex, "sin", th)
                K = [[0, neg(r[2]), r[1]], [r[2], 0, neg(r[0])], [neg(r[1]), r[0], 0]]
                for i in range(3):
                    for j in range(3):
                        d = Fraction(int(i == j))
                        K2 = sub(mul(r[i], r[j]), mul(d, n2))
                        want = d if small else add(sub(d, mul(div(sub(Fraction(1), co), n2), K[i][j])), mul(div(sub(th, si), mul(n2, th)), K2))
                        c.ensure("right Jacobian of the exponential, %d %d" % (i, j), eq(P.at(i, j), want))
                inv = lib_eigen.inv3(c.ex, P)
                for i in range(3):
                    for j in range(3):
                        c.ensure("and its inverse, %d %d" % (i, j), eq(Pi.at(i, j), inv.at(i, j)))
                c.frame("nothing else changes", o, pre, ["P_", "Pinv_"])
        mkp(small)

    @S.case("a new feature", tu)
    def _(c):
        pre = c.snapshot()
        c.ex.contracts["dynamicgraph::sot::PoolStorage::getInstance"] = lambda ex, o_, a, e: c.ptr("dynamicgraph::sot::PoolStorage", "pool.instance")
        c.ex.contracts["dynamicgraph::sot::PoolStorage::registerFeature"] = lambda ex, o_, a, e: None     # property C23
        o = c.construct(Q, z3.String("name"))
        c.no_throw("never throws", pre)
        c.ensure("computes in the desired frame, has no reference", and_(eq(c.get(o, "computationFrame_"), DES), c.same_ptr(c.get(o, "ptr"), NULL), gt(c.get(o, "accuracy_"), 0)))

    for name, val in (("current", CUR), ("desired", DES)):
        def mk2(name, val):
            @S.case("frame " + name, tu)
            def _(c):
                o = c.obj(Q, "f")
                pre = c.snapshot()
                c.call(Q + "::computationFrame", o, c.put(z3.StringVal(name)), pred=lambda f: len(f["params"]) == 1)
                c.no_throw("never throws", pre)
                c.ensure("is chosen", eq(c.get(o, "computationFrame_"), val))
                c.ensure("and reported", eq(c.ex.rd(c.call(Q + "::computationFrame", o, pred=lambda f: len(f["params"]) == 0)), z3.StringVal(name)))
                c.frame("nothing else changes", o, pre, ["computationFrame_"])
        mk2(name, val)

    @S.case("unknown frame", tu)
    def _(c):
        o, s = c.obj(Q, "f"), z3.String("s")
        pre = c.snapshot()
        c.call(Q + "::computationFrame", o, c.put(s), pred=lambda f: len(f["params"]) == 1)
        c.throws_iff("refused", and_(ne(s, z3.StringVal("current")), ne(s, z3.StringVal("desired"))), pre, X)

    for ref in (True, False):
        def mk3(ref):
            @S.case("keeping the current position, %s reference" % ("with" if ref else "without"), tu)
            def _(c):
                o, q = c.obj(Q, "f"), c.obj(Q, "r")
                c.set(o, "ptr", c.addr(q) if ref else NULL)
                m = c.sig(o, "positionSIN", None)
                pre = c.snapshot()
                c.call(Q + "::servoCurrentPosition", o)
                if not ref:
                    c.throws_iff("refused", True, pre, X)
                    return
                c.no_throw("never throws", pre)
                c.ensure("the reference is the current position from then on", c.eqv(c.sig(q, "positionSIN", c.int("t")), m))
                c.frame("the feature is unchanged", o, pre)
        mk3(ref)

    S.wiring(tu, Q, {"errorSOUT": "FeatureAbstract::computeError", "jacobianSOUT": "FeatureAbstract::computeJacobian", "dimensionSOUT": "FeatureAbstract::getDimension", "errordotSOUT": "computeErrordot"})

    pose_cases(S)
