from vcgen.spec import *
from vcgen.lib_std import rfun, absv

ID = "C24"
DRIVER = dict(src="c24.cpp", repo=["src/debug/debug.cpp", "src/tools/robot-utils.cpp", "src/exception/*.cpp"],
              scan=["src/tools/robot-utils.cpp", "include/sot/core/robot-utils.hh"])
ASSUMPTIONS = ["the order map is a permutation of 0..n-1", "the base quaternion is a unit quaternion", "roll, pitch, yaw are claimed outside the 0.001 rad band around pitch = +-pi/2, where the code sets roll to 0", "the sizes of the vectors are those the (disabled) assertions state"]
V = "Eigen::VectorXd"
U = "dynamicgraph::sot::RobotUtil"
IX = "long"


def cases(S):
    tu = S.tu("src/tools/robot-utils.cpp")

    def perm(c, o, n=None):
        m = c.get(o, "m_urdf_to_sot")
        n = m.n
        c.set(o, "m_nbJoints", n)
        c.assume(ge(n, 1))
        i, j = c.q("i"), c.q("j")
        c.assume(z3.ForAll([i], zx(implies(rng(i, n), rng(m.at(i), n)))))
        c.assume(z3.ForAll([i, j], zx(implies(and_(rng(i, n), rng(j, n), eq(m.at(i), m.at(j))), eq(i, j)))))
        return m, n

    def orders(name, f, n0):
        @S.case("joints to the %s order" % name, tu)
        def _(c):
            o = c.obj(U)
            m, n = perm(c, o)
            q, r, i = c.put(c.vec("q", n)), c.put(c.vec("r", n)), c.int("i")
            pre = c.snapshot()
            ok = c.call("RobotUtil::" + f, o, q, r)
            c.no_throw("never throws", pre)
            y = c.get(r)
            c.ensure("accepted", c.ex.rd(ok))
            c.ensure("size", eq(y.r, n))
            c.assume(rng(i, n))
            j = m.at(i)
            c.ensure("joint i of the model is joint m(i) of the controller", eq(y.at(j, 0), c.get(q).at(i, 0)) if n0 else eq(y.at(i, 0), c.get(q).at(j, 0)))
            c.frame("no state", o, pre)

        @S.case("joints to the %s order: refused without an order" % name, tu)
        def _(c):
            o = c.obj(U)
            c.assume(eq(c.get(o, "m_nbJoints"), 0))
            q, r = c.uninit(V, "q"), c.uninit(V, "r")
            old = c.get(r)
            pre = c.snapshot()
            ok = c.call("RobotUtil::" + f, o, q, r)
            c.no_throw("never throws", pre)
            c.ensure("refused", not_(c.ex.rd(ok)))
            c.equal("untouched", c.get(r), old)
            c.frame("no state", o, pre)
    orders("controller", "joints_urdf_to_sot", True)
    orders("model", "joints_sot_to_urdf", False)

    @S.case("joints to the controller order and back", tu)
    def _(c):
        o = c.obj(U)
        m, n = perm(c, o)
        q, r, w, i = c.put(c.vec("q", n)), c.put(c.vec("r", n)), c.put(c.vec("w", n)), c.int("i")
        c.call("RobotUtil::joints_urdf_to_sot", o, q, r)
        c.call("RobotUtil::joints_sot_to_urdf", o, r, w)
        c.assume(rng(i, n))
        c.ensure("the original", eq(c.get(w).at(i, 0), c.get(q).at(i, 0)))

    @S.case("joints to the model order and back", tu)
    def _(c):
        o = c.obj(U)
        m, n = perm(c, o)
        q, r, w, i = c.put(c.vec("q", n)), c.put(c.vec("r", n)), c.put(c.vec("w", n)), c.int("i")
        c.call("RobotUtil::joints_sot_to_urdf", o, q, r)
        c.call("RobotUtil::joints_urdf_to_sot", o, r, w)
        c.assume(rng(i, n))
        # a permutation of a finite set reaches every index
        inv = lambda x: c.ex.uf("inverse order", (x,), "int")
        c.assume(and_(rng(inv(i), n), eq(m.at(inv(i)), i)))
        c.ensure("the original", eq(c.get(w).at(i, 0), c.get(q).at(i, 0)))

    def rot(q):
        return lib_eigen.quat_matrix(mat(4, 1, lambda i, j: q.at(3 + i if isinstance(i, int) else add(i, 3), 0)))

    def vel(name, f, back):
        @S.case("velocities to the %s convention" % name, tu)
        def _(c):
            o = c.obj(U)
            m, n = perm(c, o)
            q, v, r, i = c.put(c.vec("q", add(n, 7))), c.put(c.vec("v", add(n, 6))), c.put(c.vec("r", add(n, 6))), c.int("i")
            x, R = c.get(v), rot(c.get(q))
            pre = c.snapshot()
            ok = c.call("RobotUtil::" + f, o, q, v, r)
            c.no_throw("never throws", pre)
            y = c.get(r)
            c.ensure("accepted", c.ex.rd(ok))
            c.ensure("size", eq(y.r, add(n, 6)))
            for b in (0, 3):
                for k in range(3):
                    w = total(*[mul(R.at(l, k) if back else R.at(k, l), x.at(b + l, 0)) for l in range(3)])
                    c.ensure("base velocity rotated by the base orientation%s, %d" % (" (inverse)" if back else "", b + k), eq(y.at(b + k, 0), w))
            c.assume(rng(i, n))
            j, l = add(m.at(i), 6), add(i, 6)
            c.ensure("joint velocities reordered", eq(y.at(l, 0), x.at(j, 0)) if back else eq(y.at(j, 0), x.at(l, 0)))
            c.frame("no state", o, pre)
    vel("controller", "velocity_urdf_to_sot", False)
    vel("model", "velocity_sot_to_urdf", True)

    @S.case("velocities to the controller convention and back", tu)
    def _(c):
        o = c.obj(U)
        m, n = perm(c, o)
        q, v, r, w, i = c.put(c.vec("q", add(n, 7))), c.put(c.vec("v", add(n, 6))), c.put(c.vec("r", add(n, 6))), c.put(c.vec("w", add(n, 6))), c.int("i")
        Q = c.get(q)
        c.assume(eq(total(*[mul(Q.at(k, 0), Q.at(k, 0)) for k in range(3, 7)]), 1))
        c.call("RobotUtil::velocity_urdf_to_sot", o, q, v, r)
        c.call("RobotUtil::velocity_sot_to_urdf", o, q, r, w)
        x, y = c.get(v), c.get(w)
        for k in range(6):
            c.ensure("the original base velocity, %d" % k, eq(y.at(k, 0), x.at(k, 0)))
        c.assume(rng(i, n))
        c.ensure("the original joint velocities", eq(y.at(add(i, 6), 0), x.at(add(i, 6), 0)))

    @S.case("configurations to the controller convention", tu)
    def _(c):
        o = c.obj(U)
        m, n = perm(c, o)
        q, r, i = c.put(c.vec("q", add(n, 7))), c.put(c.vec("r", add(n, 6))), c.int("i")
        x = c.get(q)
        pre = c.snapshot()
        ok = c.call("RobotUtil::config_urdf_to_sot", o, q, r)
        c.no_throw("never throws", pre)
        y = c.get(r)
        c.ensure("accepted", c.ex.rd(ok))
        for k in range(3):
            c.ensure("base position, %d" % k, eq(y.at(k, 0), x.at(k, 0)))
        c.assume(rng(i, n))
        c.ensure("joints reordered", eq(y.at(add(m.at(i), 6), 0), x.at(add(i, 7), 0)))
        c.frame("no state", o, pre)

    @S.case("configurations to the model convention", tu)
    def _(c):
        o = c.obj(U)
        m, n = perm(c, o)
        q, r, i = c.put(c.vec("q", add(n, 6))), c.put(c.vec("r", add(n, 7))), c.int("i")
        x = c.get(q)
        pre = c.snapshot()
        ok = c.call("RobotUtil::config_sot_to_urdf", o, q, r)
        c.no_throw("never throws", pre)
        y = c.get(r)
        c.ensure("accepted", c.ex.rd(ok))
        for k in range(3):
            c.ensure("base position, %d" % k, eq(y.at(k, 0), x.at(k, 0)))
        W = rpy(c, *[x.at(3 + k, 0) for k in range(3)])
        Q = rot(y)
        for a in range(3):
            for b in range(3):
                c.ensure("the quaternion is yaw after pitch after roll, %d %d" % (a, b), eq(Q.at(a, b), W.at(a, b)))
        c.assume(rng(i, n))
        c.ensure("joints reordered", eq(y.at(add(i, 7), 0), x.at(add(m.at(i), 6), 0)))
        c.frame("no state", o, pre)

    def rpy(c, r, p, y):
        X, Y, Z = [lib_eigen.elem_rot(c.ex, k, a) for k, a in ((0, r), (1, p), (2, y))]
        return lib_eigen.mmul(c.ex, lib_eigen.mmul(c.ex, Z, Y), X)

    @S.case("base orientation to roll, pitch, yaw", tu)
    def _(c):
        r0, p0, y0 = [c.real(k) for k in ("r0", "p0", "y0")]
        R = rpy(c, r0, p0, y0)
        cp = rfun(c.ex, "cos", p0)
        c.assume(gt(cp, 0))
        pos, q = c.put(c.vec("pos", 3)), c.put(c.vec("q", 6))
        pre = c.snapshot()
        c.call("base_se3_to_sot", None, pos, c.put(mat(3, 3, R.at)), q)
        c.no_throw("never throws", pre)
        y = c.get(q)
        for k in range(3):
            c.ensure("position, %d" % k, eq(y.at(k, 0), c.get(pos).at(k, 0)))
        t = lambda f, x: rfun(c.ex, f, x)
        half_pi = Fraction(31415926535897931, 20000000000000000)
        c.assume(not_(lt(absv(sub(absv(y.at(4, 0)), half_pi)), Fraction(1, 1000))))
        for nm, k, a in (("pitch", 4, p0), ("roll", 3, r0), ("yaw", 5, y0)):
            c.ensure("sine of the %s" % nm, eq(t("sin", y.at(k, 0)), t("sin", a)))
            c.ensure("cosine of the %s" % nm, eq(t("cos", y.at(k, 0)), t("cos", a)))

    for fn, free in (("RobotUtil::base_sot_to_urdf", False), ("base_sot_to_urdf", True)):
        def mk(fn, free):
            @S.case("base to the model convention: " + ("free function" if free else "member"), tu)
            def _(c):
                o = None if free else c.obj(U)
                q, r = c.put(c.vec("q", 6)), c.put(c.vec("r", 7))
                x = c.get(q)
                pre = c.snapshot()
                c.call(fn, o, q, r, pred=lambda f: ("RobotUtil" in f["qn"]) != free)
                c.no_throw("never throws", pre)
                y = c.get(r)
                for k in range(3):
                    c.ensure("base position, %d" % k, eq(y.at(k, 0), x.at(k, 0)))
                W, Q = rpy(c, *[x.at(3 + k, 0) for k in range(3)]), rot(y)
                for a in range(3):
                    for b in range(3):
                        c.ensure("the quaternion is yaw after pitch after roll, %d %d" % (a, b), eq(Q.at(a, b), W.at(a, b)))
                c.ensure("the quaternion is a unit quaternion", eq(total(*[mul(y.at(k, 0), y.at(k, 0)) for k in range(3, 7)]), 1))
        mk(fn, free)

    for fn, free in (("RobotUtil::base_urdf_to_sot", False), ("base_urdf_to_sot", True)):
        def mk(fn, free):
            @S.case("base to the controller convention: " + ("free function" if free else "member"), tu)
            def _(c):
                o = None if free else c.obj(U)
                q, r = c.put(c.vec("q", 7)), c.put(c.vec("r", 6))
                x = c.get(q)
                R = rot(x)
                pre = c.snapshot()
                c.call(fn, o, q, r, pred=lambda f: ("RobotUtil" in f["qn"]) != free)
                c.no_throw("never throws", pre)
                y = c.get(r)
                # the angles are those of the rotation matrix of the quaternion (decided for matrices below)
                z = c.put(c.vec("z", 6))
                c.call("base_se3_to_sot", None, c.put(c.vec("pos", 3)), c.put(mat(3, 3, R.at)), z)
                for k in range(3):
                    c.ensure("base position, %d" % k, eq(y.at(k, 0), x.at(k, 0)))
                    c.ensure("roll, pitch, yaw of the rotation matrix, %d" % k, eq(y.at(3 + k, 0), c.get(z).at(3 + k, 0)))
        mk(fn, free)

    def table(cls, what, setter, fwd, rev, getid, getname, dflt):
        nm_, id_ = z3.String("name"), z3.Int("id")

        @S.case("%s: naming an index" % what, tu)
        def _(c):
            o = c.obj(cls)
            t0 = c.get(o, fwd)
            pre = c.snapshot()
            c.call("%s::%s" % (cls.split("::")[-1], setter), o, c.put(nm_), c.put(id_))
            c.no_throw("never throws", pre)
            t, u, s, x = c.get(o, fwd), c.get(o, rev), z3.String("s"), z3.Int("x")
            c.ensure("the name is added, the others are kept", and_(eq(t.has(s), or_(t0.has(s), eq(s, nm_))),
                     implies(t.has(s), eq(t.get(s), ite(eq(s, nm_), id_, t0.get(s))))))
            c.ensure("every index of a name is in the reverse table", implies(t.has(s), u.has(t.get(s))))
            c.ensure("the reverse table leads back", implies(u.has(x), and_(t.has(u.get(x)), eq(t.get(u.get(x)), x))))
            if cls == U:
                c.frame("nothing else", o, pre, [fwd, rev])
            else:
                fs = ["m_Force_Id_Right_Foot", "m_Force_Id_Left_Foot", "m_Force_Id_Left_Hand", "m_Force_Id_Right_Hand"]
                for f, k in zip(fs, ("rf", "lf", "lh", "rh")):
                    c.ensure("the index of %s is remembered" % k, eq(c.get(o, f), ite(eq(nm_, z3.StringVal(k)), id_, c.at(pre, o, f))))
                c.frame("nothing else", o, pre, [fwd, rev] + fs)

        @S.case("%s: index of a name" % what, tu)
        def _(c):
            o = c.obj(cls)
            t = c.get(o, fwd)
            if cls == U:
                c.ex.write(c.glob("dynamicgraph::sot::VoidIndex"), -1)
            pre = c.snapshot()
            r = c.call("%s::%s" % (cls.split("::")[-1], getid), o, c.put(nm_))
            c.no_throw("never throws", pre)
            c.ensure("the index, -1 for an unknown name", eq(c.ex.rd(r), ite(t.has(nm_), t.get(nm_), -1)))
            c.frame("no entry is created", o, pre)

        @S.case("%s: name of an index" % what, tu)
        def _(c):
            o = c.obj(cls)
            u = c.get(o, rev)
            g = c.glob("dynamicgraph::sot::" + dflt)
            c.ex.write(g, z3.StringVal("default"))
            pre = c.snapshot()
            r = c.call("%s::%s" % (cls.split("::")[-1], getname), o, c.put(id_))
            c.no_throw("never throws", pre)
            c.ensure("the name, the documented default for an unknown index", eq(c.ex.rd(r), ite(u.has(id_), u.get(id_), z3.StringVal("default"))))
            c.frame("no entry is created", o, pre)
    @S.case("documented defaults", tu)
    def _(c):
        N = "dynamicgraph::sot::"
        c.ensure("index -1", eq(c.glob_init(N + "VoidIndex"), -1))
        c.ensure("joint name", eq(c.glob_init(N + "joint_default_rtn"), z3.StringVal("Joint name not found")))
        c.ensure("force name", eq(c.glob_init(N + "force_default_rtn"), z3.StringVal("Force name not found")))
        v = c.glob_init(N + "VoidJointLimits")
        c.ensure("joint limits 0, 0", and_(eq(v.get("lower"), 0), eq(v.get("upper"), 0)))
        v = c.glob_init(N + "VoidForceLimits")
        for f in ("lower", "upper"):
            c.ensure("no force, " + f, and_(eq(v.get(f).r, 6), *[eq(v.get(f).at(k, 0), 0) for k in range(6)]))

    F = "dynamicgraph::sot::ForceUtil"
    table(U, "joints", "set_name_to_id", "m_name_to_id", "m_id_to_name", "get_id_from_name", "get_name_from_id", "joint_default_rtn")
    table(F, "forces", "set_name_to_force_id", "m_name_to_force_id", "m_force_id_to_name", "get_id_from_name", "get_name_from_id", "force_default_rtn")
    table(F, "forces (copy)", "set_name_to_force_id", "m_name_to_force_id", "m_force_id_to_name", "get_id_from_name", "cp_get_name_from_id", "force_default_rtn")

    for g in ("get_joint_limits_from_id", "cp_get_joint_limits_from_id"):
        def mk(g):
            @S.case("joint limits: " + g, tu)
            def _(c):
                o, i, lo, up, j = c.obj(U), c.int("i"), c.real("lo"), c.real("up"), c.int("j")
                m0 = c.get(o, "m_limits_map")
                v = c.glob("dynamicgraph::sot::VoidJointLimits")
                c.set(v, "lower", Fraction(0))
                c.set(v, "upper", Fraction(0))
                pre = c.snapshot()
                c.call("RobotUtil::set_joint_limits_for_id", o, c.put(i), c.put(lo), c.put(up))
                c.no_throw("never throws", pre)
                c.frame("nothing else", o, pre, ["m_limits_map"])
                mid = c.snapshot()
                r = c.get(c.put(c.ex.rd(c.call("RobotUtil::" + g, o, c.put(j)))))
                c.no_throw("never throws (reading)", mid)
                one = lambda f, new: ite(eq(i, j), new, ite(m0.has(j), m0.get(j).get(f), Fraction(0)))
                c.ensure("lower stays lower", eq(r.get("lower"), one("lower", lo)))
                c.ensure("upper stays upper", eq(r.get("upper"), one("upper", up)))
                c.frame("no entry is created", o, mid)
        mk(g)

    for g in ("get_limits_from_id", "cp_get_limits_from_id"):
        def mk(g):
            @S.case("force limits: " + g, tu)
            def _(c):
                o, i, j, k = c.obj(F), c.int("i"), c.int("j"), c.int("k")
                lo, up = c.uninit(V, "lo"), c.uninit(V, "up")
                m0 = c.get(o, "m_force_id_to_limits")
                void = c.get(c.glob("dynamicgraph::sot::VoidForceLimits"))
                pre = c.snapshot()
                c.call("ForceUtil::set_force_id_to_limits", o, c.put(i), lo, up)
                c.no_throw("never throws", pre)
                c.frame("nothing else", o, pre, ["m_force_id_to_limits"])
                mid = c.snapshot()
                r = c.get(c.put(c.ex.rd(c.call("ForceUtil::" + g, o, c.put(j)))))
                c.no_throw("never throws (reading)", mid)
                for f, new in (("lower", lo), ("upper", up)):
                    a, b, d, w = r.get(f), c.get(new), m0.get(j).get(f), void.get(f)
                    c.ensure("%s stays %s" % (f, f), and_(eq(a.r, ite(eq(i, j), b.r, ite(m0.has(j), d.r, w.r))),
                             implies(rng(k, a.r), eq(a.at(k, 0), ite(eq(i, j), b.at(k, 0), ite(m0.has(j), d.at(k, 0), w.at(k, 0)))))))
                c.frame("no entry is created", o, mid)
        mk(g)

    @S.case("setting the order (indices)", tu)
    def _(c):
        o, m, i = c.obj(U), c.uninit("std::vector<long>", "m"), c.int("i")
        pre = c.snapshot()
        c.call("RobotUtil::set_urdf_to_sot", o, m, pred=lambda f: "vector" in f["params"][0]["t"])
        c.no_throw("never throws", pre)
        x, u, d = c.get(m), c.get(o, "m_urdf_to_sot"), c.get(o, "m_dgv_urdf_to_sot")
        c.ensure("sizes", and_(eq(c.get(o, "m_nbJoints"), x.n), eq(u.n, x.n), eq(d.r, x.n)))
        c.assume(rng(i, x.n))
        c.ensure("the order and its copy", and_(eq(u.at(i), x.at(i)), eq(d.at(i, 0), toreal(x.at(i)))))
        c.frame("nothing else", o, pre, ["m_nbJoints", "m_urdf_to_sot", "m_dgv_urdf_to_sot"])

    @S.case("setting the order (vector)", tu)
    def _(c):
        n, i, k = c.nat("n"), c.int("i"), c.q("k")
        iv = lambda a: c.ex.uf("order", (a,), "int")
        o, m = c.obj(U), c.put(mat(n, 1, lambda a, b: toreal(iv(a))))
        c.assume(z3.ForAll([k], z3.And(iv(k) >= 0, iv(k) < 2 ** 31)))
        pre = c.snapshot()
        c.call("RobotUtil::set_urdf_to_sot", o, m, pred=lambda f: "vector" not in f["params"][0]["t"])
        c.no_throw("never throws", pre)
        u, d = c.get(o, "m_urdf_to_sot"), c.get(o, "m_dgv_urdf_to_sot")
        c.ensure("sizes", and_(eq(c.get(o, "m_nbJoints"), n), eq(u.n, n), eq(d.r, n)))
        c.assume(rng(i, n))
        c.ensure("the order and its copy", and_(eq(u.at(i), iv(i)), eq(d.at(i, 0), toreal(iv(i)))))
        c.frame("nothing else", o, pre, ["m_nbJoints", "m_urdf_to_sot", "m_dgv_urdf_to_sot"])

    @S.case("a new RobotUtil", tu)
    def _(c):
        o = c.construct(U, n=0)
        c.ensure("has no joints", eq(c.get(o, "m_nbJoints"), 0))
        x, s = z3.Int("x"), z3.String("s")
        c.ensure("has no names and no limits", and_(not_(c.get(o, "m_name_to_id").has(s)), not_(c.get(o, "m_id_to_name").has(x)), not_(c.get(o, "m_limits_map").has(x))))

    G = "dynamicgraph::sot::sgl_map_name_to_robot_util"

    @S.case("registry: look-up", tu)
    def _(c):
        nm, g = z3.String("robot"), c.glob(G)
        m0 = c.get(g)
        pre = c.snapshot()
        r = c.ex.rd(c.call("getRobotUtil", None, c.put(nm)))
        c.ensure("the registered one, null when there is none", implies(not_(m0.has(nm)), c.same_ptr(r, NULL)))
        c.ensure("the registered one", implies(m0.has(nm), c.same_ptr(r, m0.get(nm))))
        b = c.ex.rd(c.call("isNameInRobotUtil", None, c.put(nm)))
        c.ensure("known exactly when registered", eq(b, m0.has(nm)))
        c.equal("no entry is created", c.get(g), m0)

    @S.case("registry: creation", tu)
    def _(c):
        nm, g, s = z3.String("robot"), c.glob(G), z3.String("s")
        m0 = c.get(g)
        r = c.ex.rd(c.call("createRobotUtil", None, c.put(nm)))
        m = c.get(g)
        c.ensure("an existing name is not replaced", implies(m0.has(nm), c.same_ptr(r, NULL)))
        c.ensure("a new one is registered under the name", and_(m.has(nm), implies(not_(m0.has(nm)), and_(c.same_ptr(r, m.get(nm)), not_(c.same_ptr(r, NULL))))))
        c.ensure("the other entries are kept", implies(or_(ne(s, nm), m0.has(nm)), and_(eq(m.has(s), m0.has(s)), implies(m0.has(s), c.same_ptr(m.get(s), m0.get(s))))))
