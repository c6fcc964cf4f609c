from vcgen.spec import *
from .c27 import matprod

ID = "C25"
DRIVER = dict(src="c25.cpp", repo=["src/debug/debug.cpp", "src/tools/kalman.cpp", "src/exception/*.cpp", "src/factory/pool.cpp"],
              scan=["src/tools/kalman.cpp", "include/sot/core/kalman.hh"])
ASSUMPTIONS = ["the matrices have consistent sizes; the innovation covariance is invertible",
               "the scheduler evaluates the updated variance once per instant: recompute(t) runs computeVarianceUpdate(t), and not a second time at one t"]
MX, V = "Eigen::MatrixXd", "Eigen::VectorXd"
CL = "Kalman"


def tr(a):
    return mat(a.c, a.r, lambda i, j: a.at(j, i))


def plus(a, b, f=add):
    return mat(a.r, a.c, lambda i, j: f(a.at(i, j), b.at(i, j)))


def sigis(c, o, field, t, x):
    """the signal has the value x at time t (and an arbitrary one at another time)"""
    sid, ty = c.get(o, field).sid, c.get(o, field).ty

    def val(ex, s, tt, lv):
        if eq(tt, t) is True or (is_sym(tt) and is_sym(t) and tt.eq(t)):
            return x
        return ex.sym(ty.a[0], sid + "@other", (tt,))
    c.ex.sig_values[sid] = val


def cases(S):
    tu = S.tu("src/tools/kalman.cpp")

    @S.case("updated variance", tu)
    def _(c):
        o, t = c.obj(CL), c.int("t")
        c.assume(ne(t, 0))
        n, m = c.nat("n"), c.nat("m")
        P, Q, R, F, H = [c.matrix(nm, a, b) for nm, a, b in (("P", n, n), ("Q", n, n), ("R", m, m), ("F", n, n), ("H", m, n))]
        c.set(o, "stateVariance_", P)
        for s, x in (("noiseTransitionSIN", Q), ("noiseMeasureSIN", R), ("modelTransitionSIN", F), ("modelMeasureSIN", H)):
            sigis(c, o, s, t, x)
        r, i, j = c.uninit(MX, "res"), c.int("i"), c.int("j")
        mp = lambda a, b: matprod(c.ex, a, b)
        Pp = plus(mp(mp(F, P), tr(F)), Q)
        Si = lib_eigen.inverse_of(plus(mp(mp(H, Pp), tr(H)), R), c.ex)
        K = mp(mp(Pp, tr(H)), Si)
        Pn = plus(Pp, mp(mp(K, H), Pp), sub)
        pre = c.snapshot()
        c.call(CL + "::computeVarianceUpdate", o, r, t)
        c.no_throw("never throws", pre)
        y, k, w = c.get(r), c.get(o, "K_"), c.get(o, "stateVariance_")
        c.ensure("size", and_(eq(y.r, n), eq(y.c, n), eq(k.r, n), eq(k.c, m)))
        c.assume(rng(i, n))
        c.ensure("gain: predicted variance times H' times the inverse innovation covariance", implies(rng(j, m), eq(k.at(i, j), K.at(i, j))))
        c.assume(rng(j, n))
        c.ensure("returns (I - K H) times the predicted variance", eq(y.at(i, j), Pn.at(i, j)))
        c.ensure("the variance carried to the next step is the updated one", and_(eq(w.r, n), eq(w.c, n), eq(w.at(i, j), y.at(i, j))))
        c.frame("the state estimate is kept", o, pre, ["stateVariance_", "FP_", "Pk_k_1_", "S_", "K_"])

    @S.case("variance at the initial instant", tu)
    def _(c):
        o, r = c.obj(CL), c.uninit(MX, "res")
        P = c.get(o, "stateVariance_")
        pre = c.snapshot()
        c.call(CL + "::computeVarianceUpdate", o, r, c.put(0))
        c.no_throw("never throws", pre)
        c.equal("the configured variance", c.get(r), P)
        c.frame("unchanged", o, pre)

    @S.case("state estimate", tu)
    def _(c):
        o, t = c.obj(CL), c.int("t")
        c.assume(ne(t, 0))
        xp, yp, y = [c.sig(o, s, t) for s in ("statePredictedSIN", "observationPredictedSIN", "measureSIN")]
        K = c.v(MX, "gain", t)     # the gain at time t: see the case on the variance
        c.assume(and_(eq(K.r, xp.r), eq(K.c, y.r), eq(yp.r, y.r)))
        vid = c.get(o, "varianceUpdateSOUT").sid
        at = []

        def recompute(ex, lv, tt):
            if ex.rd(lv).sid != vid:
                raise Unsupported("recompute of another signal")
            ex.write(o.sub("f", "K_"), c.v(MX, "gain", tt))
            ex.write(o.sub("f", "stateVariance_"), c.v(MX, "updated variance", tt))
            at.append(tt)
        c.ex.sig_values["recompute"] = recompute
        r, i = c.uninit(V, "res"), c.int("i")
        pre = c.snapshot()
        c.call(CL + "::computeStateUpdate", o, r, t)
        c.no_throw("never throws", pre)
        e, w = c.get(r), c.get(o, "stateEstimation_")
        c.ensure("the variance is brought up to date exactly once, at that instant", and_(len(at) == 1, *[eq(x, t) for x in at]))
        c.ensure("size", eq(e.r, xp.r))
        c.assume(rng(i, xp.r))
        c.ensure("prediction plus gain times innovation", eq(e.at(i, 0), add(xp.at(i, 0), c.sumf(lambda k: mul(K.at(i, k), sub(y.at(k, 0), yp.at(k, 0))))(y.r))))
        c.ensure("kept as the estimate", and_(eq(w.r, e.r), eq(w.at(i, 0), e.at(i, 0))))
        c.frame("nothing else", o, pre, ["stateEstimation_", "z_", "K_", "stateVariance_"])

    @S.case("state estimate at the initial instant", tu)
    def _(c):
        o, r = c.obj(CL), c.uninit(V, "res")
        x = c.get(o, "stateEstimation_")
        pre = c.snapshot()
        c.call(CL + "::computeStateUpdate", o, r, c.put(0))
        c.no_throw("never throws", pre)
        c.equal("the configured estimate", c.get(r), x)
        c.frame("unchanged", o, pre)

    for f, fld, ty in (("setStateEstimation", "stateEstimation_", V), ("setStateVariance", "stateVariance_", MX)):
        def mk(f, fld, ty):
            @S.case(f, tu)
            def _(c):
                o, x = c.obj(CL), c.uninit(ty, "x")
                c.ex.sig_values["recompute"] = lambda ex, lv, tt: None
                pre = c.snapshot()
                c.call(CL + "::" + f, o, x)
                c.no_throw("never throws", pre)
                c.equal("configured", c.get(o, fld), c.get(x))
                c.frame("nothing else", o, pre, [fld])
        mk(f, fld, ty)

    S.wiring(tu, "Kalman", {"varianceUpdateSOUT": "computeVarianceUpdate", "stateUpdateSOUT": "computeStateUpdate"})
