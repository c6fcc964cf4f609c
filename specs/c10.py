from vcgen.spec import *
from vcgen.lib_std import rfun

ID = "C10"
DRIVER = dict(src="c10.cpp", repo=["src/task/gain-adaptive.cpp", "src/task/gain-hyperbolic.cpp", "src/exception/*.cpp", "src/factory/pool.cpp", "src/debug/debug.cpp"],
              scan=["include/sot/core/gain-*.hh"])
ASSUMPTIONS = ["the prescribed slope points from the value at zero to the value at infinity (its sign is that of valueAt0 - valueAtInfty), for the monotony and the bounds",
               "the percentage of the passing point is positive (and below 1 with a positive reference error, for the monotony and the bounds)"]


def cases(S):
    ad, hy = S.tu("src/task/gain-adaptive.cpp"), S.tu("src/task/gain-hyperbolic.cpp")

    def norm(c, e):
        return rfun(c.ex, "sqrt", c.sumf(lambda i: mul(e.at(i, 0), e.at(i, 0)))(e.r))

    def gain(c, o, t):
        r = c.uninit("double", "res")
        c.call(c.G + "::computeGain", o, r, t)
        return c.get(r)

    def reals(c, *ns):
        v = [c.real(n) for n in ns]
        return v, [c.put(x) for x in v]

    def adaptive(c, how):
        """the law a*exp(-b x) + c as configured; (a, b, c)"""
        c.G = "GainAdaptive"
        o = c.obj("GainAdaptive", "g")
        if how == "slope":
            (v0, vi, tg), p = reals(c, "valueAt0", "valueAtInfty", "tanAt0")
            pre = c.snapshot()
            c.call("GainAdaptive::init", o, *p)
            a, b = sub(v0, vi), ite(eq(v0, vi), Fraction(0), div(tg, sub(v0, vi)))
            c.no_throw("never throws", pre)
            return o, a, b, vi, ge(mul(tg, a), 0)
        if how == "passing point":
            (v0, vi, x, pc), p = reals(c, "valueAt0", "valueAtInfty", "xref", "percent")
            c.assume(and_(ne(x, 0), gt(pc, 0)))
            pre = c.snapshot()
            c.call("GainAdaptive::initFromPassingPoint", o, *p)
            a, b = sub(v0, vi), ite(eq(v0, vi), Fraction(0), neg(div(rfun(c.ex, "log", pc), x)))
            c.no_throw("never throws", pre)
            c.x, c.pc = x, pc
            return o, a, b, vi, and_(gt(x, 0), le(pc, 1))
        (l,), p = reals(c, "lambda")
        pre = c.snapshot()
        c.call("GainAdaptive::init", o, *p)
        c.no_throw("never throws", pre)
        return o, Fraction(0), Fraction(0), l, True

    for how in ("slope", "passing point", "single value"):
        def mk(how):
            @S.case("adaptive gain set by " + how, ad)
            def _(c):
                o, a, b, k, dec = adaptive(c, how)
                t = c.int("t")
                e = c.sig(o, "errorSIN", t)
                n = norm(c, e)
                pre = c.snapshot()
                g = gain(c, o, t)
                c.no_throw("gain never throws", pre)
                c.frame("configuration kept", o, pre)
                if how == "single value":
                    c.ensure("that constant whatever the error", eq(g, k))
                    return
                c.ensure("exponential of the error norm between the prescribed values", eq(g, add(mul(a, rfun(c.ex, "exp", neg(mul(b, n)))), k)))
                c.ensure("value at zero", implies(eq(n, 0), eq(g, add(a, k))))
                if how == "passing point":
                    c.ensure("passes through the requested point", implies(eq(n, c.x), eq(g, add(k, mul(c.pc, a)))))
                c.ensure("equal values: constant", implies(eq(a, 0), eq(g, k)))

            @S.case("adaptive gain set by %s stays between its limits" % how, ad)
            def _(c):
                o, a, b, k, dec = adaptive(c, how)
                t, t2 = c.int("t"), c.int("t2")
                e, e2 = c.sig(o, "errorSIN", t), c.sig(o, "errorSIN", t2)
                n, n2 = norm(c, e), norm(c, e2)
                c.assume(dec)
                c.assume(and_(le(0, n), le(n, n2)))
                pre = c.snapshot()
                g, g2 = gain(c, o, t), gain(c, o, t2)
                c.no_throw("gain never throws", pre)
                lo, hi = ite(ge(a, 0), k, add(a, k)), ite(ge(a, 0), add(a, k), k)
                c.ensure("between the limits", and_(le(lo, g), le(g, hi)))
                c.ensure("monotone towards the value at infinity", ite(ge(a, 0), ge(g, g2), le(g, g2)))
        mk(how)

    @S.case("default adaptive gain", ad)
    def _(c):
        c.G = "GainAdaptive"
        o = c.obj("GainAdaptive", "g")
        pre = c.snapshot()
        c.call("GainAdaptive::init", o)
        t = c.int("t")
        g = gain(c, o, t)
        c.no_throw("never throws", pre)
        c.ensure("the documented constant 0.1", eq(g, Fraction(1, 10)))

    for G, tu in (("GainAdaptive", ad), ("GainHyperbolic", hy)):
        def mk2(G, tu):
            @S.case(G + " forced constant", tu)
            def _(c):
                c.G = G
                o = c.obj(G, "g")
                k = c.get(o, "coeff_c")
                pre = c.snapshot()
                c.call(G + "::forceConstant", o)
                t = c.int("t")
                g = gain(c, o, t)
                c.no_throw("never throws", pre)
                c.ensure("constant, its value at infinity", eq(g, k))
        mk2(G, tu)

    for how in ("limits", "single value", "defaults"):
        def mk3(how):
            @S.case("hyperbolic gain set by " + how, hy)
            def _(c):
                c.G = "GainHyperbolic"
                o = c.obj("GainHyperbolic", "g")
                t, t2 = c.int("t"), c.int("t2")
                pre = c.snapshot()
                if how == "limits":
                    (v0, vi, tg, d), p = reals(c, "valueAt0", "valueAtInfty", "tanAt0", "decal")
                    c.call("GainHyperbolic::init", o, *p)
                    a = sub(v0, vi)
                    b = ite(eq(a, 0), Fraction(0), div(div(tg, a), 2))
                elif how == "single value":
                    (v0,), p = reals(c, "lambda")
                    c.call("GainHyperbolic::init", o, *p)
                else:
                    c.call("GainHyperbolic::init", o)
                    v0 = Fraction(1, 10)
                e, e2 = c.sig(o, "errorSIN", t), c.sig(o, "errorSIN", t2)
                n, n2 = norm(c, e), norm(c, e2)
                g = gain(c, o, t)
                c.no_throw("never throws", pre)
                if how != "limits":
                    c.ensure("that constant whatever the error", eq(g, v0))
                    return
                c.ensure("tanh of the shifted error norm between the prescribed values",
                         eq(g, add(div(mul(a, add(rfun(c.ex, "tanh", neg(mul(b, sub(n, d)))), 1)), 2), vi)))
                c.ensure("between the limits", ite(ge(v0, vi), and_(le(vi, g), le(g, v0)), and_(le(v0, g), le(g, vi))))
                c.assume(ge(mul(tg, a), 0))
                c.assume(le(n, n2))
                g2 = gain(c, o, t2)
                c.ensure("monotone towards the value at infinity", ite(ge(a, 0), ge(g, g2), le(g, g2)))
                c.ensure("equal values: constant", implies(eq(a, 0), eq(g, v0)))
        mk3(how)

    for G, tu, m in (("GainAdaptive", ad, 3), ("GainHyperbolic", hy, 4)):
        def mk4(G, tu, m):
            for k in (0, 1, m):
                def mk5(k):
                    @S.case("%s constructed with %d values" % (G, k), tu)
                    def _(c):
                        c.G = G
                        pre = c.snapshot()
                        ps = [c.put(c.real("p%d" % i)) for i in range(k)]
                        vs = [c.get(p) for p in ps]
                        o = c.construct(G, c.put(c.v("std::string", "name")), *ps, n=k + 1)
                        c.no_throw("never throws", pre)
                        t = c.int("t")
                        g = gain(c, o, t)
                        o2 = c.obj(G, "g2")
                        c.call(G + "::init", o2, *ps, n=k)
                        if k < 2:
                            c.ensure("that constant", eq(g, vs[0] if k else Fraction(1, 10)))
                        for f in ("coeff_a", "coeff_b", "coeff_c") + (("coeff_d",) if m == 4 else ()):
                            c.equal("configured as by init: " + f, c.get(o, f), c.get(o2, f))
                mk5(k)
        mk4(G, tu, m)

    S.wiring(ad, "GainAdaptive", {"gainSOUT": "computeGain"})
    S.wiring(hy, "GainHyperbolic", {"gainSOUT": "computeGain"})
