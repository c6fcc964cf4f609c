import functools
from vcgen.spec import *
from vcgen import lib_pin, lib_dg
from .c19 import flags
from .c25 import sigis

V, M = "Eigen::VectorXd", "Eigen::MatrixXd"
POSES = ("oMja", "jaMfa", "oMjb", "jbMfb")


def pose_cases(S):
    tu = S.tu("src/feature/feature-pose.cpp", "src/feature/feature-abstract.cpp", "src/sot/flags.cpp")
    dot = lambda a, b: total(*[mul(x, y) for x, y in zip(a, b)])
    for grp in ("R3xSO3", "SE3"):
        def mk(grp):
            Q = "FeaturePose<dynamicgraph::sot::%sRepresentation>" % grp
            call = lambda c, f, o, *a, **k: c.call("FeaturePose::" + f, o, *a, cls=c.cls(Q), **k)

            def setup(c):
                o, t = c.obj(Q, "f"), c.int("time")
                sel = flags(c, c.sig(o, "selectionSIN", t))
                rank = lambda i: total(0, *[ite(sel(j), 1, 0) for j in range(i)])
                sigis(c, o, "dimensionSOUT", t, rank(6))
                return o, t, sel, rank

            def fresh(c, o, t):
                """a signal's copy is its value at time t once it, or a signal computed from it, has been recomputed at t"""
                done = {}
                for top, subs in (("q_faMfb", ("q_faMfb", "faMfb") + POSES), ("q_faMfbDes", ("q_faMfbDes", "faMfbDes")), ("faNufafbDes", ("faNufafbDes",))):
                    g = c.put(False, "ghost " + top)
                    done[c.get(o, top).sid] = g
                    for s in subs:
                        def h(ex, s_, tt, lv, g=g):
                            v = ex.rd(lib_dg.sig_loc(ex, s_, t if tt is None else tt))
                            if tt is not None:
                                return v
                            return v if ex.rd(g) is True else ex.sym(s_.ty.a[0], s_.sid + "@copy", s_.args)
                        c.ex.sig_values[c.get(o, s).sid] = h
                def rec(ex, lv, tt):
                    g = done.get(ex.rd(lv).sid)
                    if g is not None and same(tt, t):
                        ex.write(g, True)
                c.ex.sig_values["recompute"] = rec

            def split(c, m):
                R = mat(3, 3, lambda i, j: m.at(i, j))
                c.rotation(R)
                return R, [m.at(i, 3) for i in range(3)]

            T = lambda R: mat(3, 3, lambda i, j: R.at(j, i))
            mm = lambda *a: a[0] if len(a) == 1 else mat(3, 3, lambda i, j: dot([mm(*a[:-1]).at(i, k) for k in range(3)], [a[-1].at(k, j) for k in range(3)]))
            mv = lambda A, b: [dot([A.at(i, k) for k in range(3)], b) for i in range(3)]

            def seen(A, q, v, w):
                """the twist (v, w) seen from the frame at pose (A, q): the action of the inverse of that pose"""
                a, p = mv(T(A), w), [neg(z) for z in mv(T(A), q)]
                return [add(x_, z) for x_, z in zip(mv(T(A), v), cross(p, a))] + a

            @S.case("pose of frame b in frame a, " + grp, tu)
            def _(c):
                o, t = c.obj(Q, "f"), c.int("time")
                (Ra, pa), (Fa, fa), (Rb, pb), (Fb, fb) = [split(c, c.sig(o, f, t)) for f in POSES]
                r = c.uninit("dynamicgraph::sot::MatrixHomogeneous", "res")
                pre = c.snapshot()
                call(c, "computefaMfb", o, r, t)
                c.no_throw("never throws", pre)
                y = c.get(r)
                A, B = mm(Ra, Fa), mm(Rb, Fb)
                ap = [add(x, z) for x, z in zip(mv(Ra, fa), pa)]
                bp = [add(x, z) for x, z in zip(mv(Rb, fb), pb)]
                for i in range(3):
                    for j in range(3):
                        c.ensure("orientation %d %d" % (i, j), eq(y.at(i, j), dot([A.at(k, i) for k in range(3)], [B.at(k, j) for k in range(3)])))
                    c.ensure("position %d" % i, eq(y.at(i, 3), dot([A.at(k, i) for k in range(3)], [sub(b, a) for a, b in zip(ap, bp)])))
                c.frame("feature unchanged", o, pre)

            for f, src in (("computeQfaMfb", "faMfb"), ("computeQfaMfbDes", "faMfbDes")):
                def mkq(f, src):
                    @S.case("%s, %s" % (f, grp), tu)
                    def _(c):
                        o, t = c.obj(Q, "f"), c.int("time")
                        R, p = split(c, c.sig(o, src, t))
                        r = c.uninit("Eigen::Matrix<double, 7, 1>", "res")
                        pre = c.snapshot()
                        call(c, f, o, r, t)
                        c.no_throw("never throws", pre)
                        y = c.get(r)
                        q = lib_eigen.quat_of(c.ex, R)
                        c.ensure("translation then quaternion of the rotation", and_(eq(y.r, 7), *[eq(y.at(i, 0), p[i]) for i in range(3)], *[eq(y.at(3 + i, 0), q.at(i, 0)) for i in range(4)]))
                        c.frame("feature unchanged", o, pre)
                mkq(f, src)

            @S.case("dimension, " + grp, tu)
            def _(c):
                o, t = c.obj(Q, "f"), c.int("time")
                sel = flags(c, c.sig(o, "selectionSIN", t))
                d = c.uninit("unsigned int", "dim")
                pre = c.snapshot()
                call(c, "getDimension", o, d, t)
                c.no_throw("never throws", pre)
                c.ensure("number of selected components", eq(c.get(d), total(0, *[ite(sel(j), 1, 0) for j in range(6)])))
                c.frame("nothing changes", o, pre)

            @S.case("error, " + grp, tu)
            def _(c):
                o, t, sel, rank = setup(c)
                d = lib_pin.diff_of(c.ex, grp, "difference", c.sig(o, "q_faMfbDes", t), c.sig(o, "q_faMfb", t))
                r = c.uninit(V, "res")
                pre = c.snapshot()
                call(c, "computeError", o, r, t)
                c.no_throw("never throws", pre)
                y = c.get(r)
                c.ensure("as many entries as selected components", and_(eq(y.r, rank(6)), eq(y.c, 1)))
                for i in range(6):
                    c.ensure("component %d of current minus desired, at its rank" % i, implies(sel(i), eq(y.at(rank(i), 0), d.at(i, 0))))
                c.frame("feature unchanged", o, pre)

            for pl in (True, False):
                def mke(pl):
                    @S.case("error rate, desired velocity %s, %s" % ("given" if pl else "absent", grp), tu)
                    def _(c):
                        o, t, sel, rank = setup(c)
                        c.assume(c.plugged(o, "faNufafbDes") if pl else not_(c.plugged(o, "faNufafbDes")))
                        fresh(c, o, t)
                        J = lib_pin.diff_of(c.ex, grp, "dDifferenceARG0", c.sig(o, "q_faMfbDes", t), c.sig(o, "q_faMfb", t))
                        nu = c.sig(o, "faNufafbDes", t)
                        c.assume(eq(nu.r, 6))
                        v, w = [nu.at(i, 0) for i in range(3)], [nu.at(i + 3, 0) for i in range(3)]
                        Rd, pd = split(c, c.sig(o, "faMfbDes", t))
                        R, p = split(c, c.sig(o, "faMfb", t))
                        r = c.uninit(V, "res")
                        pre = c.snapshot()
                        call(c, "computeErrorDot", o, r, t)
                        c.no_throw("never throws", pre)
                        y = c.get(r)
                        c.ensure("as many entries as selected components", and_(eq(y.r, rank(6)), eq(y.c, 1)))
                        if grp == "R3xSO3":
                            x = [sub(a, b) for a, b in zip(v, cross(p, w))] + mv(T(Rd), w)
                        else:
                            x = seen(Rd, pd, v, w)
                        for i in range(6):
                            c.ensure("component %d at its rank" % i, implies(sel(i), eq(y.at(rank(i), 0), dot([J.at(i, k) for k in range(6)], x) if pl else 0)))
                        c.frame("feature unchanged", o, pre)
                mke(pl)

                def mkj(two):
                    @S.case("Jacobian, %s, %s" % ("both frames move" if two else "frame a fixed", grp), tu)
                    def _(c):
                        o, t, sel, rank = setup(c)
                        c.assume(c.plugged(o, "jaJja") if two else not_(c.plugged(o, "jaJja")))
                        for f in ("jbMfb", "jaMfa"):
                            c.assume(c.plugged(o, f))
                        fresh(c, o, t)
                        L = lib_pin.diff_of(c.ex, grp, "dDifferenceARG1", c.sig(o, "q_faMfbDes", t), c.sig(o, "q_faMfb", t))
                        (Ra, pa), (Fa, fa), (Rb, pb), (Fb, fb) = [split(c, c.sig(o, f, t)) for f in POSES]
                        R, p = split(c, c.sig(o, "faMfb", t))
                        Jb, Ja = c.sig(o, "jbJjb", t), c.sig(o, "jaJja", t)
                        c.assume(and_(eq(Jb.r, 6), lt(Jb.c, 2 ** 31), eq(Ja.r, 6), eq(Ja.c, Jb.c)))
                        r = c.uninit(M, "res")
                        pre = c.snapshot()
                        call(c, "computeJacobian", o, r, t)
                        c.no_throw("never throws", pre)
                        y, j = c.get(r), c.int("j")
                        c.ensure("a row per selected component", and_(eq(y.r, rank(6)), eq(y.c, Jb.c)))
                        c.assume(rng(j, Jb.c))
                        X = lambda *ms: functools.reduce(lambda a_, b_: lib_eigen.mmul(c.ex, a_, b_), ms)
                        Y = X(T(Fa), T(Ra), Rb, Fb)

                        def moved(J, A, q):
                            """the twist of a body at pose (A, q) in its own frame, seen from the reference frame of the pose"""
                            v, w = [J.at(k, j) for k in range(3)], [J.at(k + 3, j) for k in range(3)]
                            x = seen(A, q, v, w)
                            return (mv(Y, x[:3]) if grp == "R3xSO3" else x[:3]) + x[3:]
                        x = moved(Jb, Fb, fb)
                        if two:
                            x = [sub(g, h) for g, h in zip(x, moved(Ja, mm(Fa, R), [add(g, h) for g, h in zip(mv(Fa, p), fa)]))]
                        for i in range(6):
                            c.ensure("row %d at its rank" % i, implies(sel(i), eq(y.at(rank(i), j), dot([L.at(i, k) for k in range(6)], x))))
                        c.frame("feature unchanged", o, pre)
                mkj(pl)

            @S.case("keeping the current pose, " + grp, tu)
            def _(c):
                o, t = c.obj(Q, "f"), c.int("time")
                for f in POSES:
                    c.assume(c.plugged(o, f))
                (Ra, pa), (Fa, fa), (Rb, pb), (Fb, fb) = [split(c, c.sig(o, f, t)) for f in POSES]
                pre = c.snapshot()
                call(c, "servoCurrentPosition", o, c.put(t))
                c.no_throw("never throws", pre)
                y = c.sig(o, "faMfbDes", c.int("t"))
                A, B = mm(Ra, Fa), mm(Rb, Fb)
                ap = [add(x, z) for x, z in zip(mv(Ra, fa), pa)]
                bp = [add(x, z) for x, z in zip(mv(Rb, fb), pb)]
                for i in range(3):
                    for j in range(3):
                        c.ensure("the desired orientation is the current one from then on %d %d" % (i, j), eq(y.at(i, j), dot([A.at(k, i) for k in range(3)], [B.at(k, j) for k in range(3)])))
                    c.ensure("and the desired position %d" % i, eq(y.at(i, 3), dot([A.at(k, i) for k in range(3)], [sub(b, a) for a, b in zip(ap, bp)])))
                c.frame("nothing else changes", o, pre, ["faMfbDes"])
            S.wiring(tu, Q, {"errorSOUT": "FeatureAbstract::computeError", "jacobianSOUT": "FeatureAbstract::computeJacobian", "dimensionSOUT": "FeatureAbstract::getDimension",
                             "errordotSOUT": "computeErrorDot", "faMfb": "computefaMfb", "q_faMfb": "computeQfaMfb", "q_faMfbDes": "computeQfaMfbDes"})
        mk(grp)


def cross(a, b):
    return [sub(mul(a[p], b[q]), mul(a[q], b[p])) for p, q in ((1, 2), (2, 0), (0, 1))]

