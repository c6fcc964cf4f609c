from vcgen.spec import *

ID = "C04"
SRC = "src/dynamic_graph/sot/core/matrix_util.py"
DRIVER = dict(py="c04.py", repo=[SRC])
ASSUMPTIONS = ["numpy's sin, cos, sqrt, atan2 are the mathematical functions",
               "the random vectors of generateOrthonormalM are linearly independent of the given one (the norms it divides by are not 0)",
               "extracting angles within 0.001 rad of (but not at) the gimbal singularity is outside the statement (the code snaps there)"]


def cases(S):
    py = S.py(SRC)

    def S_(c, x):
        return c.ex.uf("sin", (zx(x),), "real")

    def C_(c, x):
        return c.ex.uf("cos", (zx(x),), "real")

    def elem(c, M, i, j):
        return toreal(c.py.index(c.py.index(M, i), j))

    def m4(c, M):
        return [[elem(c, M, i, j) for j in range(4)] for i in range(4)]

    def mm(A, B):
        n = len(A)
        r = []
        for i in range(n):
            row = []
            for j in range(n):
                s = R(0)
                for k in range(n):
                    s = add(s, mul(A[i][k], B[k][j]))
                row.append(s)
            r.append(row)
        return r

    def rot(c, ax, a):
        s, k = S_(c, a), C_(c, a)
        I = [[R(int(i == j)) for j in range(4)] for i in range(4)]
        p, q = {"x": (1, 2), "y": (2, 0), "z": (0, 1)}[ax]
        I[p][p], I[q][q], I[p][q], I[q][p] = k, k, neg(s), s
        return I

    def same(c, name, A, B):
        for i in range(len(A)):
            for j in range(len(A[0])):
                c.ensure("%s (%d,%d)" % (name, i, j), eq(A[i][j], B[i][j]))

    def proper(c, A, name="proper rotation"):
        R3 = [[A[i][j] for j in range(3)] for i in range(3)]
        for i in range(3):
            for j in range(i, 3):
                s = R(0)
                for k in range(3):
                    s = add(s, mul(R3[k][i], R3[k][j]))
                c.ensure("%s: columns %d and %d" % (name, i, j), eq(s, R(int(i == j))))
        d = R(0)
        for i in range(3):
            a, b = (i + 1) % 3, (i + 2) % 3
            d = add(d, mul(R3[0][i], sub(mul(R3[1][a], R3[2][b]), mul(R3[1][b], R3[2][a]))))
        c.ensure(name + ": determinant 1", eq(d, R(1)))

    for ax in "xyz":
        def mk(ax):
            @S.case("rotate about " + ax, py)
            def _(c):
                a = c.real("a")
                M = m4(c, c.pycall("rotate", ax, a))
                same(c, "elementary rotation", M, rot(c, ax, a))
                proper(c, M)
        mk(ax)

    def rpy(c, r, p, y):
        return mm(mm(rot(c, "z", y), rot(c, "y", p)), rot(c, "x", r))

    @S.case("rpy2tr", py)
    def _(c):
        r, p, y = c.real("r"), c.real("p"), c.real("y")
        res = c.pycall("rpy2tr", r, p, y)
        M = m4(c, res)
        same(c, "yaw * pitch * roll", M, rpy(c, r, p, y))
        proper(c, M)
        c.ensure("a tuple of tuples", isinstance(res, tuple) and all(isinstance(x, tuple) for x in res))

    @S.case("RPYToMatrix", py)
    def _(c):
        pr = [c.real("v%d" % i) for i in range(6)]
        M = m4(c, c.pycall("RPYToMatrix", PyList(c.py, items(*pr))))
        E = rpy(c, pr[3], pr[4], pr[5])
        for i in range(3):
            E[i][3] = pr[i]
        same(c, "pose", M, E)
        proper(c, M)

    def pose(c):
        """a rigid transform given by symbolic angles and translation"""
        r, p, y = c.real("r"), c.real("p"), c.real("y")
        t = [c.real("t%d" % i) for i in range(3)]
        E = rpy(c, r, p, y)
        for i in range(3):
            E[i][3] = t[i]
        return E, t, r, p, y

    def as_input(c, E, kind):
        if kind == "tuple":
            return tuple(tuple(r) for r in E)
        return c.py.reg(Nd((4, 4), lambda i, j: E[i][j], "a"))

    def rebuilt(c, E, t, A, B, G):
        """E is the matrix; A, B, G the extracted roll, pitch, yaw"""
        F = rpy(c, A, B, G)
        return F

    for kind in ("tuple", "array"):
        def mk(kind):
            @S.case("matrixToRPY, away from the singularity (%s)" % kind, py)
            def _(c):
                E, t, r, p, y = pose(c)
                cp, sp = C_(c, p), S_(c, p)
                m = c.ex.uf("sqrt", (cp * cp,), "real")        # |cos p|
                c.assume(m >= z3.RealVal("0.001"))
                c.assume(m * m == cp * cp)
                res = c.pycall("matrixToRPY", as_input(c, E, kind))
                v = [c.py.index(res, i) for i in range(6)]
                for i in range(3):
                    c.ensure("translation %d" % i, eq(v[i], t[i]))
                A, B, G = [zx(toreal(x)) for x in v[3:]]
                pi = c.py.pi()
                for s in (1, -1):
                    # |cos b| <= |b -+ pi/2|
                    d = B - s * pi / 2
                    c.assume(z3.And(C_(c, B) <= z3.If(d >= 0, d, -d), -C_(c, B) <= z3.If(d >= 0, d, -d)))
                mid = [("sine of the pitch", S_(c, B) == sp_of(E)), ("cosine of the pitch", C_(c, B) == m),
                       ("cosine of the yaw", C_(c, G) * m == zx(E[0][0])), ("sine of the yaw", S_(c, G) * m == zx(E[1][0])),
                       ("cosine of the roll", C_(c, A) * m == zx(E[2][2])), ("sine of the roll", S_(c, A) * m == zx(E[2][1]))]
                for nm, g in mid:
                    c.ensure(nm, g)
                    c.assume(g)
                F = rebuilt(c, E, t, A, B, G)
                for i in range(3):
                    for j in range(3):
                        c.ensure("rebuilt rotation (%d,%d)" % (i, j), zx(F[i][j]) == zx(E[i][j]))
        mk(kind)

    def sp_of(E):
        return zx(neg(E[2][0]))

    for s in (1, -1):
        def mk(s):
            @S.case("matrixToRPY at the singularity, pitch %s" % ("pi/2" if s > 0 else "-pi/2"), py)
            def _(c):
                r, y = c.real("r"), c.real("y")
                t = [c.real("t%d" % i) for i in range(3)]
                pi = c.py.pi()
                # yaw*pitch*roll at pitch = s*pi/2 is a function of d = r - s*y only
                d = c.real("d")
                sd, cd = S_(c, d), C_(c, d)
                c.assume(sd * sd + cd * cd == 1)
                E = [[R(0), mul(s, sd), mul(s, cd), t[0]], [R(0), cd, neg(sd), t[1]], [R(-s), R(0), R(0), t[2]], [R(0), R(0), R(0), R(1)]]
                at = lambda a, b: c.ex.uf("atan2", (zx(R(a)), zx(R(b))), "real")
                c.given(at(1, 0) == pi / 2)
                c.given(at(-1, 0) == -pi / 2)
                c.given(c.ex.uf("sqrt", (z3.RealVal(0),), "real") == 0)
                res = c.pycall("matrixToRPY", as_input(c, E, "tuple"))
                v = [c.py.index(res, i) for i in range(6)]
                for i in range(3):
                    c.ensure("translation %d" % i, eq(v[i], t[i]))
                A, B, G = [zx(toreal(x)) for x in v[3:]]
                c.assume(z3.And(C_(c, pi / 2) == 0, S_(c, pi / 2) == 1, C_(c, -pi / 2) == 0, S_(c, -pi / 2) == -1))
                c.ensure("pitch", B == s * pi / 2)
                c.assume(z3.And(S_(c, B) == s, C_(c, B) == 0))
                F = rpy(c, A, B, G)
                for i in range(3):
                    for j in range(3):
                        c.ensure("rebuilt rotation (%d,%d)" % (i, j), eq(F[i][j], E[i][j]))
        mk(s)

    @S.case("quaternionToMatrix", py)
    def _(c):
        q = [c.real("q" + k) for k in "xyzw"]
        x, y, z, w = q
        c.assume(x * x + y * y + z * z + w * w == 1)
        res = c.pycall("quaternionToMatrix", PyList(c.py, items(*q)))
        M = [[elem(c, res, i, j) for j in range(3)] for i in range(3)]
        # v -> q v q* (columns: images of the basis vectors), written for a unit quaternion
        E = [[w * w + x * x - y * y - z * z, 2 * (x * y - w * z), 2 * (x * z + w * y)],
             [2 * (x * y + w * z), w * w - x * x + y * y - z * z, 2 * (y * z - w * x)],
             [2 * (x * z - w * y), 2 * (y * z + w * x), w * w - x * x - y * y + z * z]]
        same(c, "conjugation by the quaternion", M, E)
        for i in range(3):
            for j in range(3):
                c.assume(zx(eq(M[i][j], E[i][j])))
        n2 = x * x + y * y + z * z + w * w
        for i in range(3):
            for j in range(i, 3):
                s = sum(E[k][i] * E[k][j] for k in range(3))
                # orthonormality of E: n2^2 on the diagonal
                c.ensure("orthonormal columns %d %d (times the squared norm)" % (i, j), eq(s, n2 * n2 if i == j else R(0)))
        det = sum(E[0][i] * (E[1][(i + 1) % 3] * E[2][(i + 2) % 3] - E[1][(i + 2) % 3] * E[2][(i + 1) % 3]) for i in range(3))
        c.ensure("determinant 1 (cube of the squared norm)", eq(det, n2 * n2 * n2))

    @S.case("generateOrthonormalM", py)
    def _(c):
        v = [c.real("v%d" % i) for i in range(3)]
        c.assume(z3.Or(*[x != 0 for x in v]))
        c.py.norm_nonzero = True
        res = c.pycall("generateOrthonormalM", PyList(c.py, items(*v)))
        M = [[elem(c, res, i, j) for j in range(3)] for i in range(3)]
        n = c.ex.uf("sqrt", (zx(add(add(mul(v[0], v[0]), mul(v[1], v[1])), mul(v[2], v[2]))),), "real")
        c.assume(n > 0)
        for i in range(3):
            c.ensure("first column along the given vector %d" % i, eq(mul(M[i][0], n), v[i]))
        for i in range(3):
            for j in range(i, 3):
                s = R(0)
                for k in range(3):
                    s = add(s, mul(M[k][i], M[k][j]))
                c.ensure("orthonormal columns %d %d" % (i, j), eq(s, R(int(i == j))))

    @S.case("distVector", py)
    def _(c):
        A, B = [tuple(tuple(c.real("%s%d%d" % (n, i, j)) for j in range(4)) for i in range(4)) for n in "ab"]
        d = c.pycall("distVector", A, B)
        c.ensure("three components", eq(c.py.length(d), 3))
        for i in range(3):
            c.ensure("difference of the translations %d" % i, eq(c.py.index(d, i), sub(B[i][3], A[i][3])))

    for kind in ("a", "m"):
        def mk(kind):
            @S.case("matrixToTuple (%s)" % ("array" if kind == "a" else "matrix"), py)
            def _(c):
                n, m = c.nat("n"), c.nat("m")
                A = Nd((n, m), lambda i, j: c.ex.uf("A", (zx(i), zx(j)), "real"), kind)
                r = c.pycall("matrixToTuple", A)
                exp = PyList(c.py, [Seg(n, lambda i: PyList(c.py, [Seg(m, lambda j: c.ex.uf("A", (zx(i), zx(j)), "real"))], "tuple"))], "tuple")
                c.ensure("every entry at its place", value_eq(r, exp))
        mk(kind)

    @S.case("vectorToTuple (array)", py)
    def _(c):
        n = c.nat("n")
        A = Nd((n,), lambda i: c.ex.uf("A", (zx(i),), "real"), "a")
        r = c.pycall("vectorToTuple", A)
        c.ensure("every entry at its place", value_eq(r, PyList(c.py, [Seg(n, lambda i: c.ex.uf("A", (zx(i),), "real"))], "tuple")))

    @S.case("vectorToTuple (row)", py)
    def _(c):
        n = c.nat("n")
        A = Nd((z3.IntVal(1), n), lambda i, j: c.ex.uf("A", (zx(j),), "real"), "m")
        r = c.pycall("vectorToTuple", A)
        c.ensure("every entry at its place", value_eq(r, PyList(c.py, [Seg(n, lambda i: c.ex.uf("A", (zx(i),), "real"))], "tuple")))

    @S.case("vectorToTuple (column)", py)
    def _(c):
        n = c.nat("n")
        c.assume(n >= 1)
        A = Nd((n, z3.IntVal(1)), lambda i, j: c.ex.uf("A", (zx(i),), "real"), "m")
        r = c.pycall("vectorToTuple", A)
        c.ensure("every entry at its place", value_eq(r, PyList(c.py, [Seg(n, lambda i: c.ex.uf("A", (zx(i),), "real"))], "tuple")))
