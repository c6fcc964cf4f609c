from vcgen.spec import *

ID = "C21"
DRIVER = dict(src="c21.cpp", repo=["src/tools/joint-limitator.cpp", "src/tools/neck-limitation.cpp", "src/tools/gripper-control.cpp", "src/sot/flags.cpp", "src/exception/*.cpp", "src/debug/debug.cpp"],
              scan=["src/tools/joint-limitator.cpp", "src/tools/neck-limitation.cpp"])
ASSUMPTIONS = ["joint, limit and torque vectors have matching sizes (as long as the position, respectively the motion)",
               "the gripper's offset is the constructor's or one accepted by setOffset, hence strictly between 0 and 1"]
DT = Fraction(5, 1000)


def cases(S):
    jl = S.tu("src/tools/joint-limitator.cpp")
    nl = S.tu("src/tools/neck-limitation.cpp")
    gc = S.tu("src/tools/gripper-control.cpp", "src/sot/flags.cpp")

    @S.case("joint limitator", jl)
    def _(c):
        o, t, r = c.obj("JointLimitator"), c.int("t"), c.uninit("Eigen::VectorXd", "res")
        q, up, lo, u = [c.sig(o, s, t) for s in ("jointSIN", "upperJlSIN", "lowerJlSIN", "controlSIN")]
        i = c.int("i")
        c.assume(and_(ge(q.r, u.r), eq(up.r, q.r), eq(lo.r, q.r), lt(q.r, 2 ** 31)))
        pre = c.snapshot()
        c.call("JointLimitator::computeControl", o, r, t)
        c.no_throw("never throws", pre)
        y = c.get(r)
        k = add(i, sub(q.r, u.r))
        nxt = add(q.at(k, 0), mul(u.at(i, 0), DT))
        ok = or_(lt(k, 6), and_(lt(nxt, up.at(k, 0)), gt(nxt, lo.at(k, 0))))
        c.ensure("one entry per control", eq(y.r, u.r))
        c.ensure("forwarded unchanged inside the range or for the free-flyer", implies(and_(rng(i, u.r), ok), eq(y.at(i, 0), u.at(i, 0))))
        c.ensure("zero otherwise", implies(and_(rng(i, u.r), not_(ok)), eq(y.at(i, 0), 0)))
        c.frame("no state", o, pre)

    @S.case("joint range width", jl)
    def _(c):
        o, t, r = c.obj("JointLimitator"), c.int("t"), c.uninit("Eigen::VectorXd", "res")
        up, lo = c.sig(o, "upperJlSIN", t), c.sig(o, "lowerJlSIN", t)
        i = c.int("i")
        c.assume(and_(eq(lo.r, up.r), lt(up.r, 2 ** 31)))
        pre = c.snapshot()
        c.call("JointLimitator::computeWidthJl", o, r, t)
        c.no_throw("never throws", pre)
        y = c.get(r)
        c.ensure("upper minus lower", and_(eq(y.r, up.r), implies(rng(i, up.r), eq(y.at(i, 0), sub(up.at(i, 0), lo.at(i, 0))))))

    @S.case("neck limitation", nl)
    def _(c):
        o, t, r = c.obj("NeckLimitation"), c.int("t"), c.uninit("Eigen::VectorXd", "res")
        q = c.sig(o, "jointSIN", t)
        pan, tilt, sg = c.get(o, "panRank"), c.get(o, "tiltRank"), c.get(o, "signTilt")
        la, be = c.get(o, "coeffLinearPan"), c.get(o, "coeffAffinePan")
        i = c.int("i")
        c.assume(and_(rng(pan, q.r), rng(tilt, q.r), ne(pan, tilt), eq(sg, 1)))
        pre = c.snapshot()
        c.call("NeckLimitation::computeJointLimitation", o, r, c.put(t))
        c.no_throw("never throws", pre)
        y = c.get(r)
        p, x = q.at(pan, 0), q.at(tilt, 0)
        absp = ite(lt(p, 0), neg(p), p)
        limit = ite(lt(absp, Fraction(1, 1000)), be, add(be, mul(la, absp)))
        c.ensure("same size", eq(y.r, q.r))
        c.ensure("the tilt is inside the limit", le(y.at(tilt, 0), limit))
        c.ensure("it is changed only to bring it to the limit", eq(y.at(tilt, 0), ite(gt(x, limit), limit, x)))
        c.ensure("all other joints are left alone", implies(and_(rng(i, q.r), ne(i, tilt)), eq(y.at(i, 0), q.at(i, 0))))
        c.frame("no state", o, pre)

    @S.case("neck limitation: configuration", nl)
    def _(c):
        o = c.construct("NeckLimitation", c.put(z3.String("name")), n=1)
        c.ensure("pan and tilt are different joints", ne(c.get(o, "panRank"), c.get(o, "tiltRank")))
        c.ensure("the tilt is limited from above", eq(c.get(o, "signTilt"), 1))
        c.ensure("the limit at rest is 0.6981", eq(c.get(o, "coeffAffinePan"), Fraction(6981, 10000)))
        c.ensure("it decreases with the pan angle by 25/42", eq(c.get(o, "coeffLinearPan"), Fraction(-25, 42)))

    def gripper(c):
        o = c.obj("dynamicgraph::sot::GripperControl", "g")
        k, f = c.get(o, "offset"), c.get(o, "factor")
        c.assume(and_(gt(k, 0), lt(k, 1)))
        q = c.q("q")
        c.assume(z3.ForAll([q], implies(rng(q, f.r), and_(ge(f.at(q, 0), 0), le(f.at(q, 0), 1)))))
        return o, k, f

    def reduced(c, k, f, n, tq, tl, v, i):
        """the factor of joint i after one update"""
        old = ite(eq(f.r, n), f.at(i, 0), Fraction(1))
        a, l, w = tq.at(i, 0), tl.at(i, 0), v(i)
        over = or_(and_(gt(a, l), gt(w, 0)), and_(lt(a, neg(l)), lt(w, 0)))
        rel = div(old, k)
        new = ite(over, mul(old, k), ite(gt(rel, 1), Fraction(1), rel))
        return old, over, ite(eq(tq.r, 0), old, new)

    @S.case("gripper: reduction factors", gc)
    def _(c):
        o, k, f = gripper(c)
        n = c.nat("n")
        v, tq, tl = c.vec("vel", n), c.vec("torques", c.nat("m")), c.vec("limits", n)
        c.assume(and_(or_(eq(tq.r, 0), eq(tq.r, n)), lt(n, 2 ** 31)))
        i = c.int("i")
        pre = c.snapshot()
        c.call("GripperControl::computeIncrement", o, c.put(tq), c.put(tl), c.put(v))
        c.no_throw("never throws", pre)
        g = c.get(o, "factor")
        old, over, want = reduced(c, k, f, n, tq, tl, lambda j: v.at(j, 0), i)
        c.ensure("one factor per joint", eq(g.r, n))
        c.assume(rng(i, n))
        c.ensure("stays within [0, 1]", and_(ge(g.at(i, 0), 0), le(g.at(i, 0), 1)))
        c.ensure("reduced exactly when the torque exceeds its limit in the direction of motion, else released", eq(g.at(i, 0), want))
        c.ensure("never reduced otherwise", implies(or_(not_(over), eq(tq.r, 0)), ge(g.at(i, 0), old)))
        c.frame("offset kept", o, pre, ["factor"])

    @S.case("gripper: desired position", gc)
    def _(c):
        o, k, f = gripper(c)
        n = c.nat("n")
        q, des, tq, tl = c.vec("pos", n), c.vec("des", n), c.vec("torques", c.nat("m")), c.vec("limits", n)
        c.assume(and_(or_(eq(tq.r, 0), eq(tq.r, n)), lt(n, 2 ** 31)))
        r, i = c.uninit("Eigen::VectorXd", "res"), c.int("i")
        pre = c.snapshot()
        c.call("GripperControl::computeDesiredPosition", o, c.put(q), c.put(des), c.put(tq), c.put(tl), r)
        c.no_throw("never throws", pre)
        y, g = c.get(r), c.get(o, "factor")
        v = lambda j: div(sub(des.at(j, 0), q.at(j, 0)), DT)
        old, over, want = reduced(c, k, f, n, tq, tl, v, i)
        c.ensure("one entry per joint", eq(y.r, n))
        c.assume(rng(i, n))
        c.ensure("factor update", eq(g.at(i, 0), want))
        c.ensure("each joint moves by its own factor times its requested motion", eq(y.at(i, 0), add(q.at(i, 0), mul(g.at(i, 0), sub(des.at(i, 0), q.at(i, 0))))))
        c.frame("offset kept", o, pre, ["factor"])

    @S.case("gripper: offset", gc)
    def _(c):
        o, x = c.obj("dynamicgraph::sot::GripperControlPlugin", "g"), c.real("value")
        k = c.get(o, "offset")
        pre = c.snapshot()
        c.call("GripperControlPlugin::setOffset", o, c.put(x))
        c.throws_iff("refused outside (0, 1)", not_(and_(gt(x, 0), lt(x, 1))), pre)
        c.on_throw("a refused value changes nothing", lambda st, v: eq(c.at(st, o, "offset"), k))
        c.equal("set", c.get(o, "offset"), x)
        c.frame("nothing else", o, pre, ["offset"])

    @S.case("gripper: initial offset", gc)
    def _(c):
        o = c.construct("dynamicgraph::sot::GripperControl", n=0)
        k = c.get(o, "offset")
        c.ensure("strictly between 0 and 1", and_(gt(k, 0), lt(k, 1)))
        c.ensure("no factor yet", eq(c.get(o, "factor").r, 0))

    @S.case("gripper: selection", gc)
    def _(c):
        v, fl, r, i = c.vec("full", c.nat("n")), c.obj("dynamicgraph::sot::Flags", "selec"), c.uninit("Eigen::VectorXd", "res"), c.int("i")
        F = c.get(fl)
        c.assume(and_(lt(v.r, 2 ** 31), lt(F.get("flags").n, 2 ** 31)))
        sel = lambda j: ite(lt(j, F.get("flags").n), F.get("flags").at(j), F.get("outOfRangeFlag"))
        pre = c.snapshot()
        c.call("GripperControl::selector", None, c.put(v), fl, r)
        c.no_throw("never throws", pre)
        y = c.get(r)
        rank = c.sumf(lambda j: ite(sel(j), 1, 0))
        c.ensure("as many entries as selected joints", eq(y.r, rank(v.r)))
        c.ensure("each selected entry at its rank", implies(and_(rng(i, v.r), sel(i)), eq(y.at(rank(i), 0), v.at(i, 0))))

    S.wiring(jl, "JointLimitator", {"controlSOUT": "computeControl", "widthJlSINTERN": "computeWidthJl"})
    S.wiring(nl, "NeckLimitation", {"jointSOUT": "computeJointLimitation"})
