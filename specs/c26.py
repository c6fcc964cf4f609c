from vcgen.spec import *

ID = "C26"
DRIVER = dict(src="c26.cpp", repo=["src/debug/debug.cpp", "src/control/control-pd.cpp", "src/control/control-gr.cpp", "src/control/admittance-control-op-point.cpp", "src/tools/gradient-ascent.cpp",
                                   "src/utils/stop-watch.cpp", "src/exception/*.cpp"],
              scan=["src/control/control-pd.cpp", "src/control/admittance-control-op-point.cpp"])
ASSUMPTIONS = ["the vectors of one controller have one size (6 for the admittance controller), saturations are not negative",
               "successive gradients have the size of the first one",
               "computing the control signal runs computeControl (as the constructor binds it)",
               "profiling (Stopwatch::start and stop on the global profiler) has no effect on the results (C02)"]
V = "Eigen::VectorXd"


def cases(S):
    pd, gr = S.tu("src/control/control-pd.cpp"), S.tu("src/control/control-gr.cpp")
    ad, ga = S.tu("src/control/admittance-control-op-point.cpp"), S.tu("src/tools/gradient-ascent.cpp")

    def pdsetup(c):
        o, t = c.obj("ControlPD"), c.int("t")
        x = [c.sig(o, s + "SIN", t) for s in ("Kp", "Kd", "position", "desiredposition", "velocity", "desiredvelocity")]
        c.assume(and_(*[eq(m.r, x[0].r) for m in x]))
        return o, t, x

    @S.case("PD controller", pd)
    def _(c):
        o, t, (kp, kd, p, dp, v, dv) = pdsetup(c)
        r, i = c.uninit(V, "tau"), c.int("i")
        pre = c.snapshot()
        c.call("ControlPD::computeControl", o, r, t)
        c.no_throw("never throws", pre)
        y, pe, ve = c.get(r), c.get(o, "position_error_"), c.get(o, "velocity_error_")
        c.ensure("one entry per joint", and_(eq(y.r, kp.r), eq(pe.r, kp.r), eq(ve.r, kp.r)))
        c.assume(rng(i, kp.r))
        ep, ev = sub(dp.at(i, 0), p.at(i, 0)), sub(dv.at(i, 0), v.at(i, 0))
        c.ensure("the control law", eq(y.at(i, 0), add(mul(kp.at(i, 0), ep), mul(kd.at(i, 0), ev))))
        c.ensure("the reported errors", and_(eq(pe.at(i, 0), ep), eq(ve.at(i, 0), ev)))
        c.frame("nothing else", o, pre, ["position_error_", "velocity_error_"])

    for nm, a, b in (("Position", 2, 3), ("Velocity", 4, 5)):
        def mk(nm, a, b):
            @S.case("PD controller: %s error output" % nm.lower(), pd)
            def _(c):
                o, t, x = pdsetup(c)
                r, i = c.uninit(V, "res"), c.int("i")
                sid = c.get(o, "controlSOUT").sid
                at = []

                def run(ex, s, tt, lv):
                    at.append(tt)
                    del ex.sig_values[sid]
                    return ex.rd(c.call("ControlPD::computeControl", o, c.uninit(V, "tau"), tt))
                c.ex.sig_values[sid] = run
                pre = c.snapshot()
                c.call("ControlPD::get%sError" % nm, o, r, t)
                c.no_throw("never throws", pre)
                y = c.get(r)
                c.ensure("size", eq(y.r, x[0].r))
                c.ensure("desired minus current", implies(rng(i, x[0].r), eq(y.at(i, 0), sub(x[b].at(i, 0), x[a].at(i, 0)))))
        mk(nm, a, b)

    @S.case("gravity controller", gr)
    def _(c):
        o, t, r, i = c.obj("ControlGR"), c.int("t"), c.uninit(V, "tau"), c.int("i")
        A, q, g = c.sig(o, "matrixASIN", t), c.sig(o, "accelerationSIN", t), c.sig(o, "gravitySIN", t)
        c.assume(and_(eq(A.c, q.r), eq(A.r, g.r)))
        pre = c.snapshot()
        c.call("ControlGR::computeControl", o, r, t)
        c.no_throw("never throws", pre)
        y = c.get(r)
        c.ensure("size", eq(y.r, g.r))
        c.assume(rng(i, g.r))
        c.ensure("mass matrix times acceleration plus gravity", eq(y.at(i, 0), add(c.sumf(lambda k: mul(A.at(i, k), q.at(k, 0)))(q.r), g.at(i, 0))))
        c.frame("no state", o, pre)

    @S.case("gradient ascent", ga)
    def _(c):
        o, t, r, i = c.obj("GradientAscent"), c.int("t"), c.uninit(V, "res"), c.int("i")
        g, k = c.sig(o, "gradientSIN", t), c.sig(o, "learningRateSIN", t)
        v, ini = c.get(o, "value"), c.get(o, "init")
        c.assume(implies(ini, eq(v.r, g.r)))
        pre = c.snapshot()
        c.call("GradientAscent::update", o, r, c.put(t))
        c.no_throw("never throws", pre)
        y, w = c.get(r), c.get(o, "value")
        c.ensure("size", and_(eq(y.r, g.r), eq(w.r, g.r)))
        c.assume(rng(i, g.r))
        c.ensure("adds learning rate times gradient, starting from zero",
                 eq(w.at(i, 0), add(ite(ini, v.at(i, 0), Fraction(0)), mul(k, g.at(i, 0)))))
        c.ensure("returns the accumulated value", eq(y.at(i, 0), w.at(i, 0)))
        c.ensure("no longer the first", c.get(o, "init"))
        c.frame("nothing else", o, pre, ["value", "init"])

    @S.case("gradient ascent: construction", ga)
    def _(c):
        o = c.construct("GradientAscent", c.put(z3.String("n")), n=1)
        c.ensure("starts from zero at its first evaluation", not_(c.get(o, "init")))

    A = "dynamicgraph::sot::core::AdmittanceControlOpPoint"

    def quiet(c):
        for f in ("start", "stop"):
            c.ex.contracts["Stopwatch::" + f] = lambda ex, o, a, e: None
        c.ex.contracts["getProfiler"] = lambda ex, o, a, e: c.obj("Stopwatch", "profiler") if "Stopwatch" in c.tu.recs else c.put(Struct("Stopwatch", {}))

    def adm(c, ready=True):
        quiet(c)
        o, t = c.obj(A), c.int("t")
        if ready:
            c.set(o, "m_initSucceeded", True)
            c.assume(eq(c.get(o, "m_n"), 6))
            v = c.get(o, "m_w_dq")
            c.assume(eq(v.r, 6))
        return o, t

    @S.case("admittance: velocity recurrence", ad)
    def _(c):
        o, t = adm(c)
        v, dt = c.get(o, "m_w_dq"), c.get(o, "m_dt")
        des, f, kp, kd, sat = [c.sig(o, s, t) for s in ("m_w_forceDesSIN", "m_w_forceSINNER", "m_KpSIN", "m_KdSIN", "m_dqSaturationSIN")]
        c.assume(and_(*[eq(m.r, 6) for m in (des, f, kp, kd, sat)]))
        q, i, r = c.q("q"), c.int("i"), c.uninit(V, "res")
        c.assume(z3.ForAll([q], implies(rng(q, 6), ge(sat.at(q, 0), 0))))
        pre = c.snapshot()
        c.call(A + "::w_dqSINNER_function", o, r, t)
        c.no_throw("never throws", pre)
        y, w = c.get(r), c.get(o, "m_w_dq")
        c.ensure("six components", and_(eq(y.r, 6), eq(w.r, 6)))
        c.assume(rng(i, 6))
        raw = sub(add(v.at(i, 0), mul(dt, mul(kp.at(i, 0), sub(des.at(i, 0), f.at(i, 0))))), mul(kd.at(i, 0), v.at(i, 0)))
        s = sat.at(i, 0)
        c.ensure("never exceeds its saturation in absolute value", and_(le(w.at(i, 0), s), ge(w.at(i, 0), neg(s))))
        c.ensure("follows its recurrence inside the saturation", implies(and_(le(raw, s), ge(raw, neg(s))), eq(w.at(i, 0), raw)))
        c.ensure("is saturated on the right side otherwise", and_(implies(gt(raw, s), eq(w.at(i, 0), s)), implies(lt(raw, neg(s)), eq(w.at(i, 0), neg(s)))))
        c.ensure("returned", eq(y.at(i, 0), w.at(i, 0)))
        c.frame("nothing else", o, pre, ["m_w_dq"])

    @S.case("admittance: force in the world frame", ad)
    def _(c):
        o, t = adm(c)
        f, H = c.sig(o, "m_forceSIN", t), c.sig(o, "m_sensorPoseSIN", t)
        c.assume(eq(f.r, 6))
        r = c.uninit(V, "res")
        pre = c.snapshot()
        c.call(A + "::w_forceSINNER_function", o, r, t)
        c.no_throw("never throws", pre)
        y = c.get(r)
        c.ensure("six components", eq(y.r, 6))
        R = lambda i, k: H.at(i, k)
        rot = lambda i, m: add(add(mul(R(i, 0), m(0)), mul(R(i, 1), m(1))), mul(R(i, 2), m(2)))
        lin = [rot(i, lambda k: f.at(k, 0)) for i in range(3)]
        ang = [rot(i, lambda k: f.at(3 + k, 0)) for i in range(3)]
        p = [H.at(i, 3) for i in range(3)]
        for i in range(3):
            j, k = (i + 1) % 3, (i + 2) % 3
            c.ensure("force rotated (%d)" % i, eq(y.at(i, 0), lin[i]))
            c.ensure("moment rotated and moved (%d)" % i, eq(y.at(3 + i, 0), add(ang[i], sub(mul(p[j], lin[k]), mul(p[k], lin[j])))))
        c.frame("no state", o, pre)

    @S.case("admittance: velocity in the point's frame", ad)
    def _(c):
        o, t = adm(c)
        v, H = c.sig(o, "m_w_dqSINNER", t), c.sig(o, "m_opPoseSIN", t)
        c.assume(eq(v.r, 6))
        r = c.uninit(V, "res")
        pre = c.snapshot()
        c.call(A + "::dqSOUT_function", o, r, t)
        c.no_throw("never throws", pre)
        y = c.get(r)
        c.ensure("six components", eq(y.r, 6))
        p, l, w = [H.at(i, 3) for i in range(3)], [v.at(i, 0) for i in range(3)], [v.at(3 + i, 0) for i in range(3)]
        m = [sub(l[i], sub(mul(p[(i + 1) % 3], w[(i + 2) % 3]), mul(p[(i + 2) % 3], w[(i + 1) % 3]))) for i in range(3)]
        rott = lambda i, x: add(add(mul(H.at(0, i), x[0]), mul(H.at(1, i), x[1])), mul(H.at(2, i), x[2]))
        for i in range(3):
            c.ensure("linear velocity at the point (%d)" % i, eq(y.at(i, 0), rott(i, m)))
            c.ensure("angular velocity (%d)" % i, eq(y.at(3 + i, 0), rott(i, w)))
        c.frame("no state", o, pre)

    @S.case("admittance: initialisation", ad)
    def _(c):
        quiet(c)
        o, dt, i = c.obj(A), c.real("dt"), c.int("i")
        ok = and_(*[c.plugged(o, "m_%sSIN" % s) for s in ("Kp", "Kd", "dqSaturation", "force", "w_forceDes", "opPose", "sensorPose")])
        was, v = c.get(o, "m_initSucceeded"), c.get(o, "m_w_dq")
        pre = c.snapshot()
        c.call(A + "::init", o, c.put(dt))
        c.no_throw("never throws", pre)
        w = c.get(o, "m_w_dq")
        c.ensure("starts at rest with the given time step when all inputs are plugged",
                 implies(ok, and_(c.get(o, "m_initSucceeded"), eq(c.get(o, "m_n"), 6), eq(c.get(o, "m_dt"), dt), eq(w.r, 6), implies(rng(i, 6), eq(w.at(i, 0), 0)))))
        c.ensure("refused otherwise", implies(not_(ok), and_(eq(zx(c.get(o, "m_initSucceeded")), zx(was)), eq(w.r, v.r), implies(rng(i, v.r), eq(w.at(i, 0), v.at(i, 0))))))

    @S.case("admittance: reset", ad)
    def _(c):
        o, t = adm(c)
        i = c.int("i")
        pre = c.snapshot()
        c.call(A + "::resetDq", o)
        c.no_throw("never throws", pre)
        w = c.get(o, "m_w_dq")
        c.ensure("at rest", and_(eq(w.r, 6), implies(rng(i, 6), eq(w.at(i, 0), 0))))
        c.frame("nothing else", o, pre, ["m_w_dq"])

    for fn in ("w_forceSINNER", "w_dqSINNER", "dqSOUT"):
        def mk2(fn):
            @S.case("admittance: %s before initialisation" % fn, ad)
            def _(c):
                o, t = adm(c, False)
                c.set(o, "m_initSucceeded", False)
                r = c.uninit(V, "res")
                v, i = c.get(r), c.int("i")
                pre = c.snapshot()
                c.call(A + "::%s_function" % fn, o, r, t)
                c.no_throw("never throws", pre)
                c.ensure("leaves its result alone", and_(eq(c.get(r).r, v.r), implies(rng(i, v.r), eq(c.get(r).at(i, 0), v.at(i, 0)))))
                c.frame("no state", o, pre)
        mk2(fn)

    @S.case("admittance: construction", ad)
    def _(c):
        quiet(c)
        o = c.construct(A, c.put(z3.String("n")), n=1)
        c.ensure("not initialised", not_(c.get(o, "m_initSucceeded")))

    S.wiring(pd, "ControlPD", {"controlSOUT": "computeControl", "positionErrorSOUT": "getPositionError", "velocityErrorSOUT": "getVelocityError"})
    S.wiring(gr, "ControlGR", {"controlSOUT": "computeControl"})
    S.wiring(ga, "GradientAscent", {"valueSOUT": "update"})
