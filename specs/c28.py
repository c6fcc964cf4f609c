from vcgen.spec import *

ID = "C28"
DRIVER = dict(src="c28.cpp", repo=["src/debug/debug.cpp", "src/math/op-point-modifier.cpp", "src/exception/*.cpp", "src/factory/pool.cpp"],
              scan=["src/math/op-point-modifier.cpp", "include/sot/core/matrix-geometry.hh"])
ASSUMPTIONS = ["poses are rigid: the linear part is a rotation", "the incoming Jacobian has 6 rows"]
MX, X = "Eigen::MatrixXd", "Eigen::Transform<double, 3, 2, 0>"
CL = "OpPointModifier"


def cross(a, b):
    return [sub(mul(a[p], b[q]), mul(a[q], b[p])) for p, q in ((1, 2), (2, 0), (0, 1))]


def parts(m):
    return mat(3, 3, lambda i, j: m.at(i, j)), [m.at(i, 3) for i in range(3)]


def cases(S):
    tu = S.tu("src/math/op-point-modifier.cpp")

    def setup(c, end):
        o, t = c.obj(CL), c.int("t")
        c.assume(eq(c.get(o, "isEndEffector"), end))
        J = c.sig(o, "jacobianSIN", t)
        c.assume(eq(J.r, 6))
        R, x = parts(c.get(o, "transformation"))
        return o, t, J, R, x, c.uninit(MX, "res"), c.int("j")

    @S.case("Jacobian in the end-effector frame", tu)
    def _(c):
        o, t, J, R, x, r, j = setup(c, True)
        c.rotation(R)
        pre = c.snapshot()
        c.call(CL + "::jacobianSOUT_function", o, r, t)
        c.no_throw("never throws", pre)
        y = c.get(r)
        c.ensure("same shape", and_(eq(y.r, 6), eq(y.c, J.c)))
        c.assume(rng(j, J.c))
        l, w = [J.at(i, j) for i in range(3)], [J.at(i + 3, j) for i in range(3)]
        Rt = lambda v: [total(*[mul(R.at(k, i), v[k]) for k in range(3)]) for i in range(3)]
        xp = [neg(v) for v in Rt(x)]
        for i in range(3):
            c.ensure("angular velocity seen from the new frame, %d" % i, eq(y.at(i + 3, j), Rt(w)[i]))
            c.ensure("linear velocity transported by the inverse pose, %d" % i, eq(y.at(i, j), add(Rt(l)[i], cross(xp, Rt(w))[i])))
        c.frame("no state", o, pre)

    @S.case("the transported velocity is that of the displaced point", tu)
    def _(c):
        R, x, w = c.matrix("R", 3, 3), [c.real("x%d" % i) for i in range(3)], [c.real("w%d" % i) for i in range(3)]
        T = [(1, 2), (2, 0), (0, 1)]
        cof = mat(3, 3, lambda i, j: sub(mul(R.at(T[i][0], T[j][0]), R.at(T[i][1], T[j][1])), mul(R.at(T[i][0], T[j][1]), R.at(T[i][1], T[j][0]))))
        tr = lambda A, v: [total(*[mul(A.at(k, i), v[k]) for k in range(3)]) for i in range(3)]
        a, b = cross([neg(v) for v in tr(R, x)], tr(R, w)), tr(cof, cross(w, x))
        for i in range(3):   # the cofactors of a rotation are its entries: cof(R) = R
            c.ensure("(-R'x) x (R'w) = cof(R)'(w x x), %d" % i, eq(a[i], b[i]))

    @S.case("Jacobian in the world-aligned frame", tu)
    def _(c):
        o, t, J, R, x, r, j = setup(c, False)
        A, _ = parts(c.sig(o, "positionSIN", t))
        pre = c.snapshot()
        c.call(CL + "::jacobianSOUT_function", o, r, t)
        c.no_throw("never throws", pre)
        y = c.get(r)
        c.ensure("same shape", and_(eq(y.r, 6), eq(y.c, J.c)))
        c.assume(rng(j, J.c))
        l, w = [J.at(i, j) for i in range(3)], [J.at(i + 3, j) for i in range(3)]
        d = [total(*[mul(A.at(i, k), x[k]) for k in range(3)]) for i in range(3)]
        for i in range(3):
            c.ensure("angular velocity unchanged, %d" % i, eq(y.at(i + 3, j), w[i]))
            c.ensure("linear velocity of the displaced point, %d" % i, eq(y.at(i, j), add(l[i], cross(w, d)[i])))
        c.frame("no state", o, pre)

    @S.case("position", tu)
    def _(c):
        o, t = c.obj(CL), c.int("t")
        P, (R, x) = c.sig(o, "positionSIN", t), parts(c.get(o, "transformation"))
        A, p = parts(P)
        r = c.uninit(X, "res")
        pre = c.snapshot()
        c.call(CL + "::positionSOUT_function", o, r, t)
        c.no_throw("never throws", pre)
        y = c.get(r)
        for i in range(3):
            for j in range(3):
                c.ensure("rotations composed, %d %d" % (i, j), eq(y.at(i, j), total(*[mul(A.at(i, k), R.at(k, j)) for k in range(3)])))
            c.ensure("translations composed, %d" % i, eq(y.at(i, 3), total(p[i], *[mul(A.at(i, k), x[k]) for k in range(3)])))
        c.frame("no state", o, pre)

    @S.case("set and get the transformation", tu)
    def _(c):
        o, m = c.obj(CL), c.uninit("Eigen::Matrix<double, 4, 4, 0, 4, 4>", "m")
        pre = c.snapshot()
        c.call(CL + "::setTransformation", o, m)
        c.no_throw("never throws", pre)
        c.equal("stored", c.get(o, "transformation"), c.get(m))
        c.frame("nothing else", o, pre, ["transformation"])
        c.equal("returned", c.ex.rd(c.call(CL + "::getTransformation", o)), c.get(m))

    @S.case("construction", tu)
    def _(c):
        o = c.construct(CL, c.put(z3.String("n")), n=1)
        c.ensure("end-effector mode by default", c.get(o, "isEndEffector"))

    S.wiring(tu, "OpPointModifier", {"jacobianSOUT": "jacobianSOUT_function", "positionSOUT": "positionSOUT_function"})
