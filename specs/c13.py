from vcgen.spec import *
from vcgen.lib_std import rfun

ID = "C13"
DRIVER = dict(src="c13.cpp", repo=["src/matrix/operator.cpp", "src/sot/flags.cpp", "src/exception/*.cpp", "src/factory/pool.cpp", "src/debug/debug.cpp"],
              scan=["src/matrix/operator.hh", "include/sot/core/matrix-geometry.hh"])
ASSUMPTIONS = ["poses are rigid: the linear part is a rotation matrix; quaternions are unit quaternions; the vectors have the sizes the operators document"]
V, MX, X = "Eigen::VectorXd", "Eigen::MatrixXd", "Eigen::Transform<double, 3, 2, 0>"
R3, Q, UT = "Eigen::Matrix<double, 3, 3, 0, 3, 3>", "Eigen::Quaternion<double, 0>", "Eigen::AngleAxis<double>"
V3, T6 = "Eigen::Matrix<double, 3, 1, 0, 3, 1>", "Eigen::Matrix<double, 6, 6, 0, 6, 6>"
ALL = [(i, j) for i in range(3) for j in range(3)]


def cases(S):
    tu = S.tu("src/matrix/operator.cpp")

    def conv(c, op, x, rt, cls=None):
        """apply a conversion operator to the location x"""
        o = c.obj(cls or op)
        r = c.uninit(rt, "res of " + op)
        pre = c.snapshot()
        c.call(op + "::operator()", o, x, r, pred=(lambda f: f["cls"].endswith(cls)) if cls else None)
        c.no_throw(op + " never throws", pre)
        return r

    def linear(m):
        return mat(3, 3, lambda i, j: m.at(i, j))

    def pose(c, name="M"):
        R, t = c.matrix(name + ".R", 3, 3), c.vec(name + ".t", 3)
        R, t = mat(3, 3, R.at), mat(3, 1, t.at)
        c.rotation(R)
        m = mat(4, 4, lambda i, j: Fraction(int(i == j)) if i == 3 else R.at(i, j) if j < 3 else t.at(i, 0))
        return c.put(lib_eigen.from_rows([[m.at(i, j) for j in range(4)] for i in range(4)])), R, t

    def facts(c):
        """what Eigen's conversions from rotation matrices guarantee; their argument is shown to be a rotation"""
        for v, ax, R, fs in getattr(c.ex, "log_facts", []):
            for i, j in ALL:
                c.ensure("the converted matrix is a rotation, %d %d" % (i, j), eq(total(*[mul(R.at(i, k), R.at(j, k)) for k in range(3)]), int(i == j)))
            for f in fs:
                c.assume(f)
        c.ex.log_facts = []

    def quat(c, name="q"):
        q = c.vec(name, 4)
        c.assume(eq(total(*[mul(q.at(k, 0), q.at(k, 0)) for k in range(4)]), 1))
        return mat(4, 1, q.at)

    def rpy(c, r):
        A, B, C = [lib_eigen.elem_rot(c.ex, k, r[k]) for k in range(3)]
        return lib_eigen.mmul(c.ex, lib_eigen.mmul(c.ex, C, B), A)

    def same(c, what, A, B):
        for i, j in ALL:
            c.ensure("%s, %d %d" % (what, i, j), eq(A.at(i, j), B.at(i, j)))

    def ident(c, y, R, t):
        same(c, "rotation", linear(y), R)
        for k in range(3):
            c.ensure("translation, %d" % k, eq(y.at(k, 3), t.at(k, 0)))

    def rows(q):
        return mat(4, 1, lambda i, j: q.at(i + 3, 0))

    # --- pose vectors of 12 numbers
    @S.case("pose to its 12 numbers and back", tu)
    def _(c):
        m, R, t = pose(c)
        v = conv(c, "MatrixHomoToSE3Vector", m, V)
        x = c.get(v)
        c.ensure("12 numbers", eq(x.r, 12))
        for k in range(3):
            c.ensure("translation first, %d" % k, eq(x.at(k, 0), t.at(k, 0)))
        ident(c, c.get(conv(c, "SE3VectorToMatrixHomo", v, X)), R, t)

    @S.case("12 numbers to a pose and back", tu)
    def _(c):
        v = c.put(c.vec("v", 12))
        x = c.get(v)
        y = c.get(conv(c, "MatrixHomoToSE3Vector", conv(c, "SE3VectorToMatrixHomo", v, X), V))
        for k in range(12):
            c.ensure("number %d" % k, eq(y.at(k, 0), x.at(k, 0)))

    # --- translation and quaternion
    @S.case("pose to translation and quaternion and back", tu)
    def _(c):
        m, R, t = pose(c)
        v = conv(c, "MatrixHomoToPoseQuaternion", m, V)
        facts(c)
        x = c.get(v)
        c.ensure("7 numbers", eq(x.r, 7))
        c.ensure("unit quaternion", eq(total(*[mul(x.at(k, 0), x.at(k, 0)) for k in range(3, 7)]), 1))
        ident(c, c.get(conv(c, "PoseQuaternionToMatrixHomo", v, X)), R, t)

    @S.case("translation and quaternion to a pose", tu)
    def _(c):
        x = c.vec("v", 7)
        y = c.get(conv(c, "PoseQuaternionToMatrixHomo", c.put(x), X))
        ident(c, y, lib_eigen.quat_matrix(rows(x)), x)

    # --- translation and roll, pitch, yaw
    @S.case("translation and roll, pitch, yaw to a pose", tu)
    def _(c):
        x = c.vec("v", 6)
        y = c.get(conv(c, "PoseRollPitchYawToMatrixHomo", c.put(x), X))
        ident(c, y, rpy(c, [x.at(k, 0) for k in range(3, 6)]), x)
        for k in range(4):
            c.ensure("last row, %d" % k, eq(y.at(3, k), int(k == 3)))

    @S.case("pose to translation and roll, pitch, yaw and back", tu)
    def _(c):
        m, R, t = pose(c)
        v = conv(c, "MatrixHomoToPoseRollPitchYaw", m, V)
        facts(c)
        c.ensure("6 numbers", eq(c.get(v).r, 6))
        ident(c, c.get(conv(c, "PoseRollPitchYawToMatrixHomo", v, X)), R, t)

    # --- translation and rotation vector
    @S.case("translation and rotation vector to a pose", tu)
    def _(c):
        x = c.vec("v", 6)
        y = c.get(conv(c, "PoseUThetaToMatrixHomo", c.put(x), X))
        w = [x.at(3 + k, 0) for k in range(3)]
        n = rfun(c.ex, "sqrt", total(*[mul(a, a) for a in w]))
        s, co = rfun(c.ex, "sin", n), rfun(c.ex, "cos", n)
        c.assume(gt(n, 0))
        hat = [[0, neg(w[2]), w[1]], [w[2], 0, neg(w[0])], [neg(w[1]), w[0], 0]]
        W = lib_eigen.from_rows([[add(mul(co, int(i == j)), add(mul(div(s, n), hat[i][j]), mul(div(sub(1, co), mul(n, n)), mul(w[i], w[j])))) for j in range(3)] for i in range(3)])
        ident(c, y, W, x)

    @S.case("translation and null rotation vector to a pose", tu)
    def _(c):
        x = c.vec("v", 6)
        v = c.put(mat(6, 1, lambda i, j: ite(lt(i, 3), x.at(i, 0), Fraction(0))))
        ident(c, c.get(conv(c, "PoseUThetaToMatrixHomo", v, X)), mat(3, 3, lambda i, j: Fraction(int(i == j))), x)

    def back(c, m, W, op):
        """(rotation vector pose, angle, axis, converted matrix); the converted matrix is W"""
        v = conv(c, op, m, V)
        (th, ax, R), = [(th, ax, R) for th, ax, R, _ in getattr(c.ex, "log_facts", []) if ax is not None]
        facts(c)
        same(c, "the converted matrix", R, W)
        c.ensure("6 numbers", eq(c.get(v).r, 6))
        return v, th, ax, R

    for pos in (True, False):
        def mk(pos):
            @S.case("pose to translation and rotation vector and back, %s angle" % ("positive" if pos else "null"), tu)
            def _(c):
                m, R, t = pose(c)
                unlog(c, t, pos, *back(c, m, R, "MatrixHomoToPoseUTheta"))

            @S.case("roll, pitch, yaw to rotation vector, %s angle" % ("positive" if pos else "null"), tu)
            def _(c):
                x = c.vec("v", 6)
                W = rpy(c, [x.at(k, 0) for k in range(3, 6)])
                unlog(c, x, pos, *back(c, c.put(x), W, "PoseRollPitchYawToPoseUTheta"))
        mk(pos)

    def lemmas(c):
        return (lambda A, W: implies(eq(W, 1), eq(mul(mul(A, A), W), mul(A, A)))), (lambda B, s: implies(and_(eq(s, mul(B, B)), ge(B, 0)), eq(rfun(c.ex, "sqrt", s), B)))

    @S.case("lemmas used for rotation vectors", tu)
    def _(c):
        A, B, W, s = z3.Reals("A B W s")
        one, root = lemmas(c)
        c.ensure("multiplication by 1", one(A, W))
        c.ensure("root of a square", root(B, s))

    def unlog(c, t, pos, v, th, ax, R):
        x = c.get(v)
        # an angle times a unit axis has the length of the angle
        one, root = lemmas(c)
        u = [ax.at(k, 0) for k in range(3)]
        U, s = total(*[mul(k, k) for k in u]), total(*[mul(x.at(3 + k, 0), x.at(3 + k, 0)) for k in range(3)])
        c.ensure("unit axis", eq(U, 1))
        c.ensure("the rotation vector is the angle times the axis", eq(s, mul(mul(th, th), U)))
        c.assume(and_(eq(s, mul(mul(th, th), U)), one(th, U), root(th, s)))
        c.ensure("squared length", eq(s, mul(th, th)))
        c.assume(eq(s, mul(th, th)))
        n = rfun(c.ex, "sqrt", total(*[mul(x.at(3 + k, 0), x.at(3 + k, 0)) for k in range(3)]))
        c.ensure("length of the rotation vector", eq(n, th))
        c.assume(eq(n, th))
        c.assume(gt(th, 0) if pos else eq(th, 0))
        y = c.get(conv(c, "PoseUThetaToMatrixHomo", v, X))
        sb = lambda e: z3.substitute(zx(e), (zx(n), th)) if is_sym(e) else e
        ident(c, mat(4, 4, lambda i, j: sb(y.at(i, j))), R, t)

    # --- rotations
    @S.case("roll, pitch, yaw to a rotation matrix", tu)
    def _(c):
        r = c.vec("r", 3)
        same(c, "yaw after pitch after roll", c.get(conv(c, "RPYToMatrix", c.put(r), R3)), rpy(c, [r.at(k, 0) for k in range(3)]))

    @S.case("roll, pitch, yaw to a quaternion", tu)
    def _(c):
        r = c.vec("r", 3)
        q = conv(c, "RPYToQuaternion", c.put(r), Q)
        facts(c)
        x = c.get(q)
        c.ensure("unit quaternion", eq(total(*[mul(x.at(k, 0), x.at(k, 0)) for k in range(4)]), 1))
        same(c, "the same rotation", lib_eigen.quat_matrix(x), c.get(conv(c, "RPYToMatrix", c.put(r), R3)))

    @S.case("rotation matrix to roll, pitch, yaw and back", tu)
    def _(c):
        m, R, t = pose(c)
        r = conv(c, "MatrixToRPY", c.put(R), V3)
        facts(c)
        same(c, "the same rotation", c.get(conv(c, "RPYToMatrix", r, R3)), R)

    @S.case("quaternion to roll, pitch, yaw and back", tu)
    def _(c):
        q = quat(c)
        r = conv(c, "QuaternionToRPY", c.put(q), V3)
        facts(c)
        same(c, "the same rotation", c.get(conv(c, "RPYToMatrix", r, R3)), lib_eigen.quat_matrix(q))

    @S.case("quaternion to a rotation matrix", tu)
    def _(c):
        q = quat(c)
        same(c, "rotation matrix of the quaternion", c.get(conv(c, "QuaternionToMatrix", c.put(q), R3)), lib_eigen.quat_matrix(q))

    @S.case("rotation matrix to a quaternion and back", tu)
    def _(c):
        m, R, t = pose(c)
        q = conv(c, "MatrixToQuaternion", c.put(R), Q)
        facts(c)
        same(c, "the same rotation", c.get(conv(c, "QuaternionToMatrix", q, R3)), R)

    @S.case("rotation matrix to angle and axis", tu)
    def _(c):
        m, R, t = pose(c)
        u = conv(c, "MatrixToUTheta", c.put(R), UT)
        facts(c)
        same(c, "the same rotation", lib_eigen.aa_matrix(c.ex, c.get(u)), R)

    @S.case("angle and axis to a quaternion", tu)
    def _(c):
        u = c.uninit(UT, "u")
        a = c.get(u).get("axis")
        A = c.ex.rd(a)
        c.assume(eq(total(*[mul(A.at(k, 0), A.at(k, 0)) for k in range(3)]), 1))
        W = lib_eigen.aa_matrix(c.ex, c.get(u))
        q = conv(c, "UThetaToQuaternion", u, Q)
        facts(c)
        same(c, "the same rotation", lib_eigen.quat_matrix(c.get(q)), W)

    # --- inverses
    @S.case("inverse of a rotation", tu)
    def _(c):
        m, R, t = pose(c)
        y = c.get(conv(c, "InverserRotation", c.put(R), R3))
        same(c, "composes to the identity", lib_eigen.mmul(c.ex, R, y), mat(3, 3, lambda i, j: Fraction(int(i == j))))

    @S.case("inverse of a unit quaternion", tu)
    def _(c):
        q = quat(c)
        y = c.get(conv(c, "InverserQuaternion", c.put(q), Q))
        p = lib_eigen.quat_mul(q, y)
        for k in range(4):
            c.ensure("composes to the identity, %d" % k, eq(p.at(k, 0), int(k == 3)))

    @S.case("inverse of a pose", tu)
    def _(c):
        m, R, t = pose(c)
        y = c.get(conv(c, "Inverser", m, X, "Inverser<Eigen::Transform<double, 3, 2, 0>>"))
        P = lib_eigen.mmul(c.ex, c.get(m), y)
        for i in range(4):
            for j in range(4):
                c.ensure("composes to the identity, %d %d" % (i, j), eq(P.at(i, j), int(i == j)))

    # --- parts
    @S.case("pose to a matrix and back", tu)
    def _(c):
        m, R, t = pose(c)
        a = conv(c, "HomoToMatrix", m, MX)
        x = c.get(a)
        c.ensure("4 by 4", and_(eq(x.r, 4), eq(x.c, 4)))
        c.equal("the same entries", x, c.get(m))
        c.equal("and back", c.get(conv(c, "MatrixToHomo", c.put(c.get(m)), X)), c.get(m))

    @S.case("rotation and translation of a pose", tu)
    def _(c):
        m, R, t = pose(c)
        same(c, "rotation", c.get(conv(c, "HomoToRotation", m, R3)), R)
        x = c.get(conv(c, "MatrixHomoToPose", m, V))
        c.ensure("3 numbers", eq(x.r, 3))
        for k in range(3):
            c.ensure("translation, %d" % k, eq(x.at(k, 0), t.at(k, 0)))

    # --- twists
    def twist(c, y, R, t):
        x, z = c.vec("a", 3), [t.at(k, 0) for k in range(3)]
        for i, j in ALL:
            col = [R.at(k, j) for k in range(3)]
            p, q = [(1, 2), (2, 0), (0, 1)][i]
            c.ensure("rotation blocks, %d %d" % (i, j), and_(eq(y.at(i, j), R.at(i, j)), eq(y.at(3 + i, 3 + j), R.at(i, j))))
            c.ensure("null block, %d %d" % (i, j), eq(y.at(3 + i, j), 0))
            c.ensure("the translation crossed with column %d, %d" % (j, i), eq(y.at(i, 3 + j), sub(mul(z[p], col[q]), mul(z[q], col[p]))))

    @S.case("twist matrix of a pose", tu)
    def _(c):
        m, R, t = pose(c)
        twist(c, c.get(conv(c, "HomoToTwist", m, T6)), R, t)

    @S.case("twist matrix of a pose (buildFrom)", tu)
    def _(c):
        m, R, t = pose(c)
        r = c.uninit(T6, "MT")
        pre = c.snapshot()
        c.call("buildFrom", None, m, r)
        c.no_throw("never throws", pre)
        twist(c, c.get(r), R, t)

    @S.case("cross-product matrix to its vector", tu)
    def _(c):
        v = [c.real("v%d" % k) for k in range(3)]
        m = lib_eigen.from_rows([[Fraction(0), neg(v[2]), v[1]], [v[2], Fraction(0), neg(v[0])], [neg(v[1]), v[0], Fraction(0)]])
        x = c.get(conv(c, "SkewSymToVector", c.put(m), V))
        c.ensure("3 numbers", eq(x.r, 3))
        for k in range(3):
            c.ensure("the vector, %d" % k, eq(x.at(k, 0), v[k]))
