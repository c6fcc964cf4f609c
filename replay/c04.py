import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pycommon import *
import numpy as np

M = load("src/dynamic_graph/sot/core/matrix_util.py", "matrix_util")
EPS = 1e-9


def rot(ax, a):
    s, c = math.sin(a), math.cos(a)
    r = np.eye(4)
    p, q = {"x": (1, 2), "y": (2, 0), "z": (0, 1)}[ax]
    r[p, p] = r[q, q] = c
    r[p, q], r[q, p] = -s, s
    return r


def close(a, b, msg, tol=EPS):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    check(a.shape == b.shape, "%s: shape %s, expected %s" % (msg, a.shape, b.shape))
    check(np.allclose(a, b, rtol=0, atol=tol), "%s: got %s, expected %s" % (msg, a.tolist(), b.tolist()))


def proper(R, msg):
    R = np.asarray(R, dtype=float)[:3, :3]
    close(R.T @ R, np.eye(3), msg + " (orthonormal)", 1e-8)
    close(np.linalg.det(R), 1.0, msg + " (determinant)", 1e-8)


def run(g):
    while g.more():
        for ax in "xyz":
            a = g.angle()
            R = M.rotate(ax, a)
            close(R, rot(ax, a), "rotate(%r, %r)" % (ax, a))
        r, p, y = g.angle(), g.angle(), g.angle()
        g.count(("rpy", r, p, y))
        E = rot("z", y) @ rot("y", p) @ rot("x", r)
        T = M.rpy2tr(r, p, y)
        check(isinstance(T, tuple) and all(isinstance(x, tuple) for x in T), "rpy2tr does not return a tuple of tuples")
        close(T, E, "rpy2tr(%r, %r, %r)" % (r, p, y))
        v = [g.real() * 3 for _ in range(3)]
        E[:3, 3] = v
        pr = v + [r, p, y]
        pr = tuple(pr) if g.rng.random() < .3 else np.array(pr) if g.rng.random() < .3 else pr
        P = M.RPYToMatrix(pr)
        close(P, E, "RPYToMatrix(%s)" % (pr,))
        if abs(abs(math.remainder(p, math.pi)) - math.pi / 2) > 2e-3:
            inp = [lambda: E, lambda: tuple(map(tuple, E)), lambda: E.tolist()][g.rng.randrange(3)]()
            w = M.matrixToRPY(inp)
            close(w[:3], v, "translation of matrixToRPY")
            close(M.RPYToMatrix(w), E, "RPYToMatrix(matrixToRPY(rpy %r %r %r))" % (r, p, y), 1e-7)
            if abs(r) < 1.5 and abs(p) < 1.5 and abs(y) < 1.5:
                close(w[3:], [r, p, y], "angles of matrixToRPY", 1e-6)
        # exactly at the singularity
        s = g.rng.choice([1, -1])
        E2 = rot("z", y) @ rot("y", s * math.pi / 2) @ rot("x", r)
        close(M.RPYToMatrix(M.matrixToRPY(E2)), E2, "round trip at pitch %d*pi/2 (roll %r, yaw %r)" % (s, r, y), 1e-6)
        q = np.array([g.rng.gauss(0, 1) for _ in range(4)])
        if g.rng.random() < .2:
            q[g.rng.randrange(4)] = 0
        if np.linalg.norm(q) > 1e-3:
            q /= np.linalg.norm(q)
            x, yy, z, w_ = q
            K = np.array([[0, -z, yy], [z, 0, -x], [-yy, x, 0]])
            close(M.quaternionToMatrix(q.tolist()), np.eye(3) + 2 * w_ * K + 2 * K @ K, "quaternionToMatrix(%s)" % q.tolist())
        u = [g.real() for _ in range(3)]
        if np.linalg.norm(u) > 1e-2:
            O = np.array(M.generateOrthonormalM(u), dtype=float)
            close(O[:, 0], np.array(u) / np.linalg.norm(u), "first column of generateOrthonormalM(%s)" % u)
            close(O.T @ O, np.eye(3), "generateOrthonormalM(%s) (orthonormal)" % u, 1e-6)
        n, m = g.rng.randrange(1, 6), g.rng.randrange(1, 6)
        A = np.array([[g.real() for _ in range(m)] for _ in range(n)])
        for B in (A, np.matrix(A)):
            t = M.matrixToTuple(B)
            check(t == tuple(tuple(A[i].tolist()) for i in range(n)), "matrixToTuple(%s) gives %s" % (A.tolist(), t))
        row = A[0]
        for B in (row, np.matrix(row), np.matrix(row).T, row.reshape(-1, 1), row.reshape(1, -1)):
            t = M.vectorToTuple(B)
            check(t == tuple(row.tolist()), "vectorToTuple(%s) gives %s" % (B.tolist(), t))
        A, B = np.array([[g.real() for _ in range(4)] for _ in range(4)]), np.array([[g.real() for _ in range(4)] for _ in range(4)])
        close(M.distVector(A, B), B[:3, 3] - A[:3, 3], "distVector")


main(run)
