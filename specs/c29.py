from vcgen.spec import *

ID = "C29"
DRIVER = dict(src="c29.cpp", repo=["src/exception/*.cpp", "src/factory/pool.cpp", "src/debug/debug.cpp"],
              scan=["include/sot/core/integrator-euler.hh", "include/sot/core/integrator-abstract.hh"])
ASSUMPTIONS = ["the integrator is initialised (one memory per coefficient) and its coefficients are not pushed or popped afterwards without a new initialisation",
               "successive inputs have one size, and matrix coefficients are square of that size", "the sampling period is not zero"]
V, M = "Eigen::VectorXd", "Eigen::MatrixXd"
VX, MX = "Eigen::Matrix<double, -1, 1, 0, -1, 1>", "Eigen::Matrix<double, -1, -1, 0, -1, -1>"
NM = {"double": "double", VX: "Vector", MX: "Matrix"}


def cases(S):
    tu = S.tu("src/matrix/integrator-euler.cpp")

    for sg, cf in (("double", "double"), (VX, "double"), (VX, MX)):
        def mk(sg, cf):
            F = "IntegratorEuler<%s, %s>" % (sg, cf)
            nm = "integrator of %s, coefficients %s: " % (NM[sg], NM[cf])

            def setup(c):
                o, t = c.obj(F, "f"), c.int("t")
                x = c.sig(o, "SIN", t)
                num, den, im, om = [c.get(o, k) for k in ("numerator", "denominator", "inputMemory", "outputMemory")]
                c.assume(and_(ge(num.n, 1), ge(den.n, 1), eq(im.n, num.n), eq(om.n, den.n), lt(num.n, 2 ** 31), lt(den.n, 2 ** 31)))
                q = c.q("q")
                if sg != "double":
                    for m in (im, om):
                        c.assume(z3.ForAll([q], implies(rng(q, m.n), eq(m.at(q).r, x.r))))
                if cf == MX:
                    for m in (num, den):
                        c.assume(z3.ForAll([q], implies(rng(q, m.n), and_(eq(m.at(q).r, x.r), eq(m.at(q).c, x.r)))))
                return o, t, x, num, den, im, om

            @S.case(nm + "one step", tu)
            def _(c):
                o, t, x, num, den, im, om = setup(c)
                r = c.uninit(sg, "res")
                dt, inv = c.get(o, "dt"), c.get(o, "invdt")
                j = c.int("j")
                if sg != "double":
                    c.assume(rng(j, x.r))
                e = (lambda v: v) if sg == "double" else (lambda v: v.at(j, 0))
                pre = c.snapshot()
                c.call("IntegratorEuler::integrate", o, r, t, cls=F)
                c.no_throw("never throws", pre)
                im2, om2 = c.get(o, "inputMemory"), c.get(o, "outputMemory")
                c.ensure("memories keep their sizes", and_(eq(im2.n, im.n), eq(om2.n, om.n)))
                i, k = c.int("i"), c.int("k")
                c.ensure("the current input", eq(e(im2.at(0)), e(x)))
                c.given(and_(le(1, i), lt(i, num.n)))
                c.ensure("successive derivatives of the input", implies(and_(le(1, i), lt(i, num.n)), eq(e(im2.at(i)), mul(sub(e(im2.at(sub(i, 1))), e(im.at(sub(i, 1)))), inv))))
                term = lambda co, m: (lambda q: mul(co.at(q), e(m.at(q)))) if cf != MX else (lambda q: c.sumf(lambda l: mul(co.at(q).at(j, l), m.at(q).at(l, 0)))(x.r))
                n = sub(den.n, 1)
                up, a, b = sub(num.n, 1), term(num, im2), term(den, om)
                c.ensure("highest output derivative: numerator applied to the input and its derivatives, minus the lower denominator terms", eq(e(om2.at(n)), add(add(a(0), c.sumf(lambda q: a(add(q, 1)))(up)), c.sumf(lambda q: neg(b(q)))(n))))
                c.ensure("each lower derivative advances by the next one times the period",
                         implies(and_(le(0, k), lt(k, n)), eq(e(om2.at(k)), add(e(om.at(k)), mul(e(om2.at(add(k, 1))), dt)))))
                c.ensure("the output is the 0-th derivative", eq(e(c.get(r)), e(om2.at(0))))
                if sg != "double":
                    c.ensure("size of the input", eq(c.get(r).r, x.r))
                c.frame("coefficients and period kept", o, pre, ["inputMemory", "outputMemory"])

            @S.case(nm + "initialisation", tu)
            def _(c):
                o = c.obj(F, "f")
                num, den, s = c.get(o, "numerator"), c.get(o, "denominator"), c.get(o, "SIN")
                c.assume(and_(lt(num.n, 2 ** 31), lt(den.n, 2 ** 31)))
                x = c.ex.sym(s.ty.a[0], s.sid + "@copy", s.args)
                lead, n = den.at(sub(den.n, 1)), den.n
                pre = c.snapshot()
                if cf == "double":
                    bad = ne(lead, 1)
                    c.call("IntegratorEuler::initialize", o, cls=F)
                    c.throws_iff("refuses empty coefficient lists and a leading denominator coefficient other than one",
                                 or_(eq(num.n, 0), eq(n, 0), bad), pre)
                else:
                    a, b = c.int("a"), c.int("b")
                    off = sub(lead.at(a, b), ite(eq(a, b), 1, 0))
                    i1, j1 = c.q("i1"), c.q("j1")
                    ident = z3.ForAll([i1, j1], implies(and_(rng(i1, lead.r), rng(j1, lead.c)), eq(lead.at(i1, j1), ite(eq(i1, j1), Fraction(1), Fraction(0)))))
                    c.call("IntegratorEuler::initialize", o, cls=F)
                    cond = c.throw_cond(None, pre)
                    post = c.ex.st
                    c.in_state(pre)
                    c.ensure("refuses empty coefficient lists", implies(or_(eq(num.n, 0), eq(n, 0)), cond), kind="throws")
                    c.ensure("refuses a leading denominator coefficient other than the identity (up to 1e-12)",
                             implies(and_(gt(n, 0), rng(a, lead.r), rng(b, lead.c), or_(gt(off, Fraction(1, 10 ** 12)), lt(off, Fraction(-1, 10 ** 12)))), cond), kind="throws")
                    c.ensure("accepts everything else", implies(cond, or_(eq(num.n, 0), eq(n, 0), not_(ident))), kind="throws")
                    c.in_state(post)
                im2, om2 = c.get(o, "inputMemory"), c.get(o, "outputMemory")
                c.ensure("one memory per coefficient", and_(eq(im2.n, num.n), eq(om2.n, n)))
                i, j = c.int("i"), c.int("j")
                if sg == "double":
                    c.ensure("input memories start at the current input", implies(rng(i, num.n), eq(im2.at(i), x)))
                    c.ensure("output memories start at the current input", implies(rng(i, n), eq(om2.at(i), x)))
                else:
                    for w, m, k in (("input", im2, num.n), ("output", om2, n)):
                        c.ensure(w + " memories have the size of the input", implies(rng(i, k), eq(m.at(i).r, x.r)))
                        c.ensure(w + " memories start at the current input", implies(and_(rng(i, k), rng(j, x.r)), eq(m.at(i).at(j, 0), x.at(j, 0))))
                c.frame("coefficients and period kept", o, pre, ["inputMemory", "outputMemory"])

            @S.case(nm + "derivative output", tu)
            def _(c):
                o, t = c.obj(F, "f"), c.int("t")
                p = c.obj(F, "after")
                om, om2 = c.get(o, "outputMemory"), c.get(p, "outputMemory")
                c.assume(eq(om.n, om2.n))
                x = om2.at(1)
                so = c.get(o, "SOUT").sid

                def upd(ex, lv, tt):
                    if ex.rd(lv).sid == so and ex.known(eq(tt, t)):
                        c.set(o, "outputMemory", om2)
                c.ex.sig_values["recompute"] = upd
                r = c.uninit(sg, "res")
                pre = c.snapshot()
                c.call("IntegratorEuler::derivative", o, r, t, cls=F)
                c.throws_iff("refused when there is no derivative", lt(om.n, 2), pre)
                c.equal("the first derivative of the output, after this time's step", c.get(r), x)

            @S.case(nm + "sampling period and coefficients", tu)
            def _(c):
                o, d = c.obj(F, "f"), c.real("period")
                c.assume(ne(d, 0))
                pre = c.snapshot()
                c.call("IntegratorEuler::setSamplingPeriod", o, c.put(d), cls=F)
                c.no_throw("never throws", pre)
                c.ensure("period and its inverse", and_(eq(c.get(o, "dt"), d), eq(mul(c.get(o, "invdt"), d), 1)))
                c.equal("reported", c.call("IntegratorEuler::getSamplingPeriod", o, cls=F), d)
                c.frame("nothing else", o, pre, ["dt", "invdt"])
        mk(sg, cf)

    S.wiring(tu, "IntegratorEuler<Eigen::Matrix<double, -1, 1, 0, -1, 1>, double>", {"SOUT": "IntegratorAbstract::integrate", "derivativeSOUT": "derivative"}, label="IntegratorEuler")
