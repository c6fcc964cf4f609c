from vcgen.spec import *

ID = "C11"
DRIVER = dict(src="c11.cpp", repo=["src/debug/debug.cpp", "src/tools/device.cpp", "src/tools/periodic-call.cpp", "src/factory/pool.cpp", "src/exception/*.cpp"],
              scan=["include/sot/core/device.hh"])
ASSUMPTIONS = ["bound vectors are empty or of the size of what they bound, lower bounds do not exceed upper bounds",
               "the control has at most the size of the state; when it has its size, the state starts with a free flyer (6 entries)",
               "pinocchio's SE(3) integration and Eigen's Euler angles (assumed, uninterpreted)"]
V = "Eigen::VectorXd"
ARG = "std::invalid_argument"
NO, ONE, TWO = 0, 1, 2
ALL = [(i, j) for i in range(3) for j in range(3)]
STATE = ["state_", "velocity_", "sanityCheck_", "controlInputType_", "vel_control_", "lowerPosition_", "upperPosition_", "lowerVelocity_", "upperVelocity_", "lowerTorque_", "upperTorque_",
         "stateSOUT", "velocitySOUT", "motorcontrolSOUT"]
FREE = "dynamicgraph::sot::Device::integrateRollPitchYaw"


def cases(S):
    tu = S.tu("src/tools/device.cpp")
    clamp = lambda x, lo, hi: ite(lt(x, lo), lo, ite(lt(hi, x), hi, x))
    fld = lambda c, o: {f: c.get(o, f) for f in ("state_", "velocity_", "lowerPosition_", "upperPosition_", "lowerVelocity_", "upperVelocity_", "lowerTorque_", "upperTorque_")}

    def setup(c):
        o = c.obj("Device", "d")
        f = fld(c, o)
        s = f["state_"].r
        c.assume(and_(le(s, 2 ** 31 - 2), eq(f["velocity_"].r, s)))
        for b in ("Position", "Velocity", "Torque"):
            lo, hi = f["lower%s_" % b], f["upper%s_" % b]
            c.assume(and_(eq(lo.r, hi.r), or_(eq(lo.r, 0), eq(lo.r, s))))
        return o, f, s

    for mode, mname in ((NO, "position"), (ONE, "velocity"), (TWO, "acceleration")):
        for full in ((False,) if mode == NO else (False, True)):
            for sane in (True, False):
                def mk(mode, mname, full, sane):
                    @S.case("%s control%s, %s checks" % (mname, " of the free flyer too" if full else "", "with" if sane else "without"), tu)
                    def _(c):
                        o, f, s = setup(c)
                        u = c.sig(o, "controlSIN", None)
                        n = u.r
                        c.assume(and_(eq(c.get(o, "controlInputType_"), mode), eq(c.get(o, "sanityCheck_"), sane), le(n, s)))
                        if mode != NO:
                            c.assume(and_(eq(n, s), ge(n, 6)) if full else lt(n, s))
                        free = lambda i: c.ex.uf("free flyer after integration", [i], "real")

                        def rpy(ex, o_, a, e):
                            # proved below; only the pose of the free flyer changes
                            m = ex.rd(a[0])
                            ex.oblige("the state has a free flyer", ge(m.r, 6), line=e.get("line"))
                            ex.oblige("and its velocity is the control's", ge(ex.rd(a[1]).r, 6), line=e.get("line"))
                            ex.write(a[0], mat(m.r, 1, lambda i, j: ite(lt(i, 6), free(i), m.at(i, 0))))
                        c.ex.contracts[FREE] = rpy
                        dt = c.real("dt")
                        nan = not_(lib_eigen.forall_entries(c.ex, u, lambda i, j: not_(c.ex.uf("isnan", [toreal(u.at(i, j))], "bool"))))
                        pre = c.snapshot()
                        c.call("Device::integrate", o, c.put(dt))
                        c.no_throw("never throws", pre)
                        y, w = c.get(o, "state_"), c.get(o, "velocity_")
                        i = c.int("i")
                        if sane:
                            c.ensure("a control with NaN leaves the state and velocity untouched", implies(nan, and_(c.eqv(y, f["state_"]), c.eqv(w, f["velocity_"]))))
                            c.assume(not_(nan))
                        c.ensure("sizes do not change", and_(eq(y.r, s), eq(w.r, s), eq(y.c, 1), eq(w.c, 1)))
                        c.assume(rng(i, s))
                        lp, up, lv, uv = [f[x] for x in ("lowerPosition_", "upperPosition_", "lowerVelocity_", "upperVelocity_")]
                        k = sub(i, sub(s, n))
                        bound = lambda x, lo, hi: ite(eq(lo.r, s), clamp(x, lo.at(i, 0), hi.at(i, 0)), x) if sane else x
                        s0, v0, x = f["state_"].at(i, 0), f["velocity_"].at(i, 0), u.at(k, 0)
                        if mode == NO:
                            q = ite(ge(k, 0), x, s0)
                        else:
                            vel = bound(x, lv, uv) if mode == ONE else add(v0, mul(mul(Fraction(1, 2), dt), x))
                            q = ite(ge(k, 0), add(s0, mul(vel, dt)), s0)
                            if full:
                                q = ite(lt(i, 6), free(i), q)
                        c.ensure("every position is the integrated one, stopped at its bounds", eq(y.at(i, 0), bound(q, lp, up)))
                        if mode == TWO:
                            v = bound(ite(ge(k, 0), add(v0, mul(x, dt)), v0), lv, uv)
                        else:
                            v = v0
                        c.ensure("the velocity follows, within its bounds", eq(w.at(i, 0), v))
                        c.frame("nothing else changes", o, pre, ["state_", "velocity_", "vel_control_", "ffPose_"])
                mk(mode, mname, full, sane)

    @S.case("free flyer", tu)
    def _(c):
        o = c.obj("Device", "d")
        q, u, dt = c.uninit(V, "q"), c.uninit(V, "u"), c.real("dt")
        c.assume(and_(ge(c.get(q).r, 6), ge(c.get(u).r, 6)))
        q0, u0 = c.get(q), c.get(u)
        pre = c.snapshot()
        c.call("Device::integrateRollPitchYaw", o, q, u, dt)
        c.no_throw("never throws", pre)
        y, i = c.get(q), c.int("i")
        c.ensure("only the six free flyer entries change", and_(eq(y.r, q0.r), implies(and_(ge(i, 6), lt(i, q0.r)), eq(y.at(i, 0), q0.at(i, 0)))))
        c.frame("and the stored free flyer pose", o, pre, ["ffPose_"])
        ex = c.ex
        A, B, C = [lib_eigen.elem_rot(ex, k, q0.at(3 + k, 0)) for k in range(3)]
        R = lib_eigen.mmul(ex, lib_eigen.mmul(ex, C, B), A)
        started = [h for h in getattr(ex, "pin_integrals", [])]
        c.ensure("one integration step", len(started) == 1)
        qi, vi, qo = started[0]
        for k in range(3):
            c.ensure("from the current position %d" % k, eq(qi.at(k, 0), q0.at(k, 0)))
            c.ensure("to the reached position %d" % k, eq(y.at(k, 0), qo.at(k, 0)))
        for k in range(6):
            c.ensure("with the control times the time step %d" % k, eq(vi.at(k, 0), mul(u0.at(k, 0), dt)))
        Ri = lib_eigen.quat_matrix(mat(4, 1, lambda i, j: qi.at(3 + i, 0)))
        for i, j in ALL:
            c.ensure("from the orientation of the current angles %d %d" % (i, j), eq(Ri.at(i, j), R.at(i, j)))
        Ro = lib_eigen.quat_matrix(mat(4, 1, lambda i, j: qo.at(3 + i, 0)))
        angles(c, y, Ro, "the new angles are those of the reached orientation")

    for b, of in (("Position", "state_"), ("Velocity", "velocity_"), ("Torque", "state_")):
        def mkb(b, of):
            @S.case("setting %s bounds" % b.lower(), tu)
            def _(c):
                o = c.obj("Device", "d")
                lo, hi = c.uninit(V, "lower"), c.uninit(V, "upper")
                n = c.get(o, of).r
                pre = c.snapshot()
                c.call("Device::set%sBounds" % b, o, lo, hi)
                bad = or_(ne(c.get(lo).r, n), ne(c.get(hi).r, n))
                c.throws_iff("another size is refused", bad, pre, ARG)
                c.on_throw("and leaves the device unchanged", lambda st, v: and_(*[c.eqv(c.at(st, o, f_), c.at(pre, o, f_)) for f_ in STATE]))
                if c.normal:
                    c.ensure("the bounds are the given ones", and_(c.eqv(c.get(o, "lower%s_" % b), c.get(lo)), c.eqv(c.get(o, "upper%s_" % b), c.get(hi))))
                    c.frame("nothing else changes", o, pre, ["lower%s_" % b, "upper%s_" % b])
        mkb(b, of)

    def refusal(c, f, s, mode, pos):
        t = or_(ne(s, f["lowerTorque_"].r), ne(s, f["upperTorque_"].r))
        v = or_(ne(s, f["lowerVelocity_"].r), ne(s, f["upperVelocity_"].r))
        p = or_(ne(s, f["lowerPosition_"].r), ne(s, f["upperPosition_"].r)) if pos else False
        return or_(and_(eq(mode, TWO), t), and_(or_(eq(mode, TWO), eq(mode, ONE)), v), p)

    @S.case("setting the state", tu)
    def _(c):
        o, q = c.obj("Device", "d"), c.uninit(V, "q")
        f, x = fld(c, o), c.get(q)
        mode = c.get(o, "controlInputType_")
        c.assume(or_(eq(mode, NO), eq(mode, ONE), eq(mode, TWO)))
        pre = c.snapshot()
        c.call("Device::setState", o, q)
        c.throws_iff("refused when checked against bounds of another size", and_(c.at(pre, o, "sanityCheck_"), refusal(c, f, x.r, mode, False)), pre, ARG)
        c.on_throw("and leaves the device unchanged", lambda st, v: and_(*[c.eqv(c.at(st, o, f_), c.at(pre, o, f_)) for f_ in STATE]))
        c.ensure("the state, and what is sent to the motors, are the given one", and_(c.eqv(c.get(o, "state_"), x), c.eqv(c.sig(o, "stateSOUT", c.int("t")), x), c.eqv(c.sig(o, "motorcontrolSOUT", c.int("t")), x)))
        c.frame("nothing else changes", o, pre, ["state_", "stateSOUT", "motorcontrolSOUT"])

    @S.case("switching the checks", tu)
    def _(c):
        o, on = c.obj("Device", "d"), c.bool("on")
        f = fld(c, o)
        mode = c.get(o, "controlInputType_")
        c.assume(or_(eq(mode, NO), eq(mode, ONE), eq(mode, TWO)))
        pre = c.snapshot()
        c.call("Device::setSanityCheck", o, c.put(on))
        c.throws_iff("enabling is refused while bounds of another size are set", and_(on, refusal(c, f, f["state_"].r, mode, True)), pre, ARG)
        c.on_throw("and leaves the device unchanged", lambda st, v: and_(*[c.eqv(c.at(st, o, f_), c.at(pre, o, f_)) for f_ in STATE]))
        c.ensure("as requested", eq(c.get(o, "sanityCheck_"), on))
        c.frame("nothing else changes", o, pre, ["sanityCheck_"])

    @S.case("choosing the control type", tu)
    def _(c):
        o, s = c.obj("Device", "d"), z3.String("s")
        m0 = c.get(o, "controlInputType_")
        pre = c.snapshot()
        c.call("Device::setControlInputType", o, c.put(s))
        c.no_throw("never throws", pre)
        m = m0
        for k, nm in enumerate(("noInteg", "oneInteg", "twoInteg")):
            m = ite(eq(s, z3.StringVal(nm)), k, m)
        c.ensure("the named one; an unknown name changes nothing", eq(c.get(o, "controlInputType_"), m))
        c.frame("nothing else changes", o, pre, ["controlInputType_"])

    for fn, m in (("setSecondOrderIntegration", TWO), ("setNoIntegration", NO)):
        def mkm(fn, m):
            @S.case(fn, tu)
            def _(c):
                o = c.obj("Device", "d")
                s = c.get(o, "state_").r
                pre = c.snapshot()
                c.call("Device::" + fn, o)
                c.no_throw("never throws", pre)
                v, i = c.get(o, "velocity_"), c.int("i")
                c.ensure("mode chosen, at rest", and_(eq(c.get(o, "controlInputType_"), m), eq(v.r, s), implies(rng(i, s), eq(v.at(i, 0), 0)), c.eqv(c.sig(o, "velocitySOUT", c.int("t")), v)))
                c.frame("nothing else changes", o, pre, ["controlInputType_", "velocity_", "velocitySOUT"])
        mkm(fn, m)

    @S.case("setting the size", tu)
    def _(c):
        o, n = c.obj("Device", "d"), c.nat("n")
        pre = c.snapshot()
        c.call("Device::setStateSize", o, c.put(n))
        c.no_throw("never throws", pre)
        y, v, i, t = c.get(o, "state_"), c.get(o, "velocity_"), c.int("i"), c.int("t")
        c.ensure("state and velocity have that size and are zero", and_(eq(y.r, n), eq(v.r, n), implies(rng(i, n), and_(eq(y.at(i, 0), 0), eq(v.at(i, 0), 0)))))
        c.ensure("and are what is reported", and_(c.eqv(c.sig(o, "stateSOUT", t), y), c.eqv(c.sig(o, "motorcontrolSOUT", t), y), c.eqv(c.sig(o, "velocitySOUT", t), v)))

    @S.case("setting the velocity", tu)
    def _(c):
        o, v = c.obj("Device", "d"), c.uninit(V, "v")
        pre = c.snapshot()
        c.call("Device::setVelocity", o, v)
        c.no_throw("never throws", pre)
        c.ensure("is the given one", and_(c.eqv(c.get(o, "velocity_"), c.get(v)), c.eqv(c.sig(o, "velocitySOUT", c.int("t")), c.get(v))))
        c.frame("nothing else changes", o, pre, ["velocity_", "velocitySOUT"])

    def root(overload):
        @S.case("setting the root from a %s" % overload, tu)
        def _(c):
            o = c.obj("Device", "d")
            x0 = c.get(o, "state_")
            R, t = c.matrix("R", 3, 3), c.vec("t", 3)
            R = mat(3, 3, R.at)
            c.rotation(R)
            r = lib_eigen.from_rows([[R.at(i, j) if j < 3 else t.at(i, 0) for j in range(4)] for i in range(3)] + [[Fraction(0)] * 3 + [Fraction(1)]])
            m = c.put(r)
            c.assume(ge(x0.r, 6))
            pre = c.snapshot()
            c.call("Device::setRoot", o, m, pred=lambda f: ("Transform" in f["params"][0]["t"]) == (overload == "pose"))
            c.no_throw("never throws", pre)
            y, i = c.get(o, "state_"), c.int("i")
            c.ensure("the root is at the given position", and_(eq(y.r, x0.r), *[eq(y.at(k, 0), r.at(k, 3)) for k in range(3)]))
            c.ensure("the joints do not move", implies(and_(ge(i, 6), lt(i, x0.r)), eq(y.at(i, 0), x0.at(i, 0))))
            c.ensure("and the new state is reported", and_(c.eqv(c.sig(o, "stateSOUT", c.int("t")), y), c.eqv(c.sig(o, "motorcontrolSOUT", c.int("t")), y)))
            c.frame("nothing else changes", o, pre, ["state_", "stateSOUT", "motorcontrolSOUT"])
            angles(c, y, R, "the angles are those of the given orientation")
    root("pose")
    root("matrix")

    def angles(c, y, R, what):
        for v, ax, Rr, fs in getattr(c.ex, "log_facts", []):
            for i, j in ALL:
                c.ensure("the converted matrix is a rotation, %d %d" % (i, j), eq(total(*[mul(Rr.at(i, k), Rr.at(j, k)) for k in range(3)]), int(i == j)))
            for f_ in fs:
                c.assume(f_)
        A, B, C = [lib_eigen.elem_rot(c.ex, k, y.at(3 + k, 0)) for k in range(3)]
        P = lib_eigen.mmul(c.ex, lib_eigen.mmul(c.ex, C, B), A)
        for i, j in ALL:
            c.ensure("%s %d %d" % (what, i, j), eq(P.at(i, j), R.at(i, j)))

    for mode, mname in ((NO, "position"), (ONE, "velocity"), (TWO, "acceleration")):
        def mki(mode, mname):
            @S.case("one period of %s control" % mname, tu)
            def _(c):
                o, ex = c.obj("Device", "d"), c.ex
                dt, step = c.real("dt"), c.put(0)
                sv = c.get(o, "stateSOUT")
                time = lambda: ex.st.store.get(("sigtime", sv.sid), ex.uf(sv.sid + ".time", sv.args, "int"))
                t0 = time()
                c.assume(and_(eq(c.get(o, "controlInputType_"), mode), lt(t0, 2 ** 31 - 1)))
                s0, v0, n = c.get(o, "state_"), c.get(o, "velocity_"), c.nat("n")
                s1, v1 = mat(s0.r, 1, lambda i, j: ex.uf("integrated state", [i], "real")), mat(v0.r, 1, lambda i, j: ex.uf("integrated velocity", [i], "real"))
                u = mat(n, 1, lambda i, j: ex.uf("control", [i], "real"))

                def run(ex, lv, a, e):
                    after = c.same_ptr(c.addr(lv), c.addr(o.sub("f", "periodicCallAfter_")))
                    k = ex.rd(step)
                    ex.oblige("before the period, or after it", and_(eq(k, ite(after, 3, 0)), eq(ex.rd(a[0]), add(t0, 1))))
                    ex.oblige("what runs after the period sees the new state", implies(after, c.eqv(ex.rd(o.sub("f", "stateSOUT")).over or s0, s1)))
                    ex.write(step, add(k, 1))
                    for what, val in (("exception", Struct("std::runtime_error", {})), ("int", 1)):
                        f = ex.fresh("bool", "periodic call fails with an " + what)
                        ex.thr.append((ex.st.assume(zx(f)), val))
                        ex.st = ex.st.assume(zx(not_(f)))

                def control(ex, s, t, lv):
                    if t is None:
                        ex.oblige("the last control is read once it is computed", ge(ex.rd(step), 2))
                        return u
                    ex.oblige("the control is computed for this period, after what runs before it", and_(eq(ex.rd(step), 1), eq(t, t0)))
                    ex.write(step, 2)
                    return u

                def integrate(ex, lv, a, e):
                    ex.oblige("integrated once, with the new control", and_(eq(ex.rd(step), 2), eq(ex.rd(a[0]), dt)))
                    ex.write(step, 3)
                    ex.write(o.sub("f", "state_"), s1)
                    ex.write(o.sub("f", "velocity_"), v1)
                ex.contracts["dynamicgraph::sot::PeriodicCall::run"] = run
                ex.contracts["dynamicgraph::sot::Device::integrate"] = integrate
                ex.sig_values[c.get(o, "controlSIN").sid] = control
                pre = c.snapshot()
                c.call("Device::increment", o, c.put(dt))
                c.no_throw("never throws, whatever the periodic calls do", pre)
                t = c.int("t")
                c.ensure("everything ran", eq(c.get(step), 4))
                c.ensure("the state reported is the integrated one", and_(c.eqv(c.sig(o, "stateSOUT", t), s1), c.eqv(c.sig(o, "motorcontrolSOUT", t), s1)))
                c.ensure("at the next instant", eq(time(), add(t0, 1)))
                if mode == NO:
                    c.ensure("the velocity reported does not change", c.eqv(c.sig(o, "velocitySOUT", t), c.sigof(c.at(pre, o, "velocitySOUT"), t)))
                else:
                    c.ensure("the velocity reported is the control, or its integral", c.eqv(c.sig(o, "velocitySOUT", t), u if mode == ONE else v1))
        mki(mode, mname)

    @S.case("a new device", tu)
    def _(c):
        pre = c.snapshot()
        o = c.construct("Device", z3.String("name"))
        c.no_throw("never throws", pre)
        y, w, i, t = c.get(o, "state_"), c.get(o, "velocity_"), c.int("i"), c.int("t")
        c.ensure("is at rest at zero, with the size of the free flyer", and_(eq(y.r, 6), eq(w.r, 6), implies(rng(i, 6), and_(eq(y.at(i, 0), 0), eq(w.at(i, 0), 0)))))
        c.ensure("checks velocity control", and_(eq(c.get(o, "sanityCheck_"), True), eq(c.get(o, "controlInputType_"), ONE)))
        c.ensure("and reports it", and_(c.eqv(c.sig(o, "stateSOUT", t), y), c.eqv(c.sig(o, "velocitySOUT", t), w)))
        c.ensure("no bounds are set", and_(*[eq(c.get(o, b + w_).r, 0) for b in ("lower", "upper") for w_ in ("Position_", "Velocity_", "Torque_")]))
