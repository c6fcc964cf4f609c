from vcgen.spec import *
from .c27 import matprod

ID = "C14"
DRIVER = dict(src="c14.cpp", repo=["src/tools/exp-moving-avg.cpp", "src/exception/*.cpp", "src/factory/pool.cpp", "src/debug/debug.cpp"],
              scan=["src/matrix/fir-filter.cpp", "include/sot/core/fir-filter.hh", "include/sot/core/derivator.hh"])
ASSUMPTIONS = ["the size of a buffer is at least one", "successive inputs of one filter have one size", "the time step of the derivator is not zero"]
V, M = "Eigen::VectorXd", "Eigen::MatrixXd"
VX, MX = "Eigen::Matrix<double, -1, 1, 0, -1, 1>", "Eigen::Matrix<double, -1, -1, 0, -1, -1>"
Q = "Eigen::Quaternion<double, 0>"
NM = {"double": "double", VX: "Vector", MX: "Matrix", Q: "VectorQuaternion"}


def buffer(c, o, path=""):
    """abstract value of a circular buffer: (capacity, number of elements, newest first)"""
    p = path + "." if path else ""
    buf, st, n = c.get(o, p + "buf"), c.get(o, p + "start"), c.get(o, p + "numel")
    at = lambda i: buf.at(ite(lt(add(st, i), buf.n), add(st, i), sub(add(st, i), buf.n)))
    return buf, st, n, at


def inv(buf, st, n):
    return and_(ge(buf.n, 1), le(0, st), lt(st, buf.n), le(0, n), le(n, buf.n))


def cases(S):
    fir, der, avg = S.tu("src/matrix/fir-filter.cpp"), S.tu("src/matrix/derivator.cpp"), S.tu("src/tools/exp-moving-avg.cpp")

    for ty in ("double", VX):
        def mk(ty):
            B = "detail::circular_buffer<%s>" % ty

            @S.case("circular buffer of %s, push_front" % NM[ty], fir)
            def _(c):
                o, d = c.obj(B, "b"), c.uninit(ty, "data")
                x = c.get(d)
                buf, st, n, at = buffer(c, o)
                c.assume(inv(buf, st, n))
                pre = c.snapshot()
                c.call("detail::circular_buffer::push_front", o, d, cls=B)
                c.no_throw("never throws", pre)
                buf2, st2, n2, at2 = buffer(c, o)
                c.ensure("invariant", inv(buf2, st2, n2))
                c.ensure("capacity kept", eq(buf2.n, buf.n))
                c.ensure("one more element until it is full", eq(n2, ite(lt(n, buf.n), add(n, 1), n)))
                i = c.int("i")
                c.assume(and_(rng(i, n2)))
                c.equal("the new one first, then the most recent ones", at2(i), ite(eq(i, 0), x, at(sub(i, 1))))

            @S.case("circular buffer of %s, element" % NM[ty], fir)
            def _(c):
                o, i = c.obj(B, "b"), c.nat("i")
                buf, st, n, at = buffer(c, o)
                c.assume(inv(buf, st, n))
                c.assume(rng(i, n))
                pre = c.snapshot()
                r = c.call("detail::circular_buffer::operator[]", o, c.put(i), cls=B)
                c.no_throw("never throws", pre)
                c.equal("i-th most recent", c.get(r), at(i))
                c.frame("buffer unchanged", o, pre)

            @S.case("circular buffer of %s, capacity" % NM[ty], fir)
            def _(c):
                o, k = c.obj(B, "b"), c.nat("capacity")
                c.assume(ge(k, 1))
                pre = c.snapshot()
                c.call("detail::circular_buffer::reset_capacity", o, c.put(k), n=1, cls=B)
                c.no_throw("never throws", pre)
                buf, st, n, at = buffer(c, o)
                c.ensure("empty, of that capacity", and_(inv(buf, st, n), eq(n, 0), eq(buf.n, k)))

            @S.case("circular buffer of %s, construction and size" % NM[ty], fir)
            def _(c):
                pre = c.snapshot()
                o = c.construct(B, n=0)
                c.no_throw("never throws", pre)
                buf, st, n, at = buffer(c, o)
                c.ensure("empty", and_(inv(buf, st, n), eq(n, 0)))
                o = c.obj(B, "b")
                n = c.get(o, "numel")
                c.equal("size: number of elements", c.call("detail::circular_buffer::size", o, cls=B), n)
        mk(ty)

    for sg, cf in (("double", "double"), (VX, "double"), (VX, MX)):
        def mk2(sg, cf):
            F = "FIRFilter<%s, %s>" % (sg, cf)
            nm = "filter of %s, coefficients %s: " % (NM[sg], NM[cf])

            @S.case(nm + "output", fir)
            def _(c):
                o, r, t = c.obj(F, "f"), c.uninit(sg, "res"), c.int("t")
                x, k = c.sig(o, "SIN", t), c.get(o, "coefs")
                buf, st, n, at = buffer(c, o, "data")
                c.assume(inv(buf, st, n))
                q = c.q("q")
                if sg != "double":
                    c.assume(z3.ForAll([q], implies(rng(q, buf.n), eq(buf.at(q).r, x.r))))
                if cf == MX:
                    c.assume(z3.ForAll([q], implies(rng(q, k.n), and_(eq(k.at(q).r, x.r), eq(k.at(q).c, x.r)))))
                pre = c.snapshot()
                c.call("FIRFilter::compute", o, r, t, cls=F)
                c.no_throw("never throws", pre)
                y = c.get(r)
                n2 = ite(lt(n, buf.n), add(n, 1), n)
                past = lambda i: ite(eq(i, 0), x, at(sub(i, 1)))
                m = ite(lt(n2, k.n), n2, k.n)
                if sg == "double":
                    c.ensure("coefficients times the most recent inputs", eq(y, c.sumf(lambda i: mul(k.at(i), past(i)))(m)))
                else:
                    c.ensure("size of the input", eq(y.r, x.r))
                    j = c.int("j")
                    c.assume(rng(j, x.r))
                    if cf == "double":
                        c.ensure("coefficients times the most recent inputs", eq(y.at(j, 0), c.sumf(lambda i: mul(k.at(i), past(i).at(j, 0)))(m)))
                    else:
                        c.ensure("coefficients times the most recent inputs",
                                 eq(y.at(j, 0), c.sumf(lambda i: c.sumf(lambda l: mul(k.at(i).at(j, l), past(i).at(l, 0)))(x.r))(m)))
                buf2, st2, n3, at2 = buffer(c, o, "data")
                i = c.int("i")
                c.ensure("memory invariant", and_(inv(buf2, st2, n3), eq(n3, n2), eq(buf2.n, buf.n)))
                c.assume(rng(i, n2))
                c.equal("the input is remembered first", at2(i), past(i))

            @S.case(nm + "size", fir)
            def _(c):
                o, s = c.obj(F, "f"), c.nat("size")
                c.assume(and_(ge(s, 1), lt(s, 2 ** 32)))
                pre = c.snapshot()
                c.call("FIRFilter::resizeBuffer", o, c.put(s), cls=F)
                c.no_throw("never throws", pre)
                buf, st, n, at = buffer(c, o, "data")
                c.ensure("as many coefficients and an empty memory", and_(inv(buf, st, n), eq(n, 0), eq(buf.n, s), eq(c.get(o, "coefs").n, s)))
                c.equal("size returned", c.call("FIRFilter::getBufferSize", o, cls=F), s)

            @S.case(nm + "coefficients", fir)
            def _(c):
                o, i, v = c.obj(F, "f"), c.nat("rank"), c.uninit(cf, "coef")
                x, k = c.get(v), c.get(o, "coefs")
                c.assume(and_(rng(i, k.n), lt(k.n, 2 ** 32)))
                pre = c.snapshot()
                c.call("FIRFilter::setElement", o, c.put(i), v, cls=F)
                c.no_throw("never throws", pre)
                k2, j = c.get(o, "coefs"), c.int("j")
                c.assume(rng(j, k.n))
                c.equal("exactly that coefficient set", k2.at(j), ite(eq(j, i), x, k.at(j)))
                c.ensure("as many coefficients", eq(k2.n, k.n))
                r = c.call("FIRFilter::getElement", o, c.put(i), cls=F)
                c.equal("read back", r, x)
        mk2(sg, cf)

    @S.case("exponential average", avg)
    def _(c):
        o, r, t = c.obj("ExpMovingAvg", "f"), c.uninit(V, "res"), c.int("t")
        x, a, A, ini = c.sig(o, "updateSIN", t), c.get(o, "alpha"), c.get(o, "average"), c.get(o, "init")
        c.assume(implies(ini, eq(A.r, x.r)))
        pre = c.snapshot()
        c.call("ExpMovingAvg::update", o, r, t)
        c.no_throw("never throws", pre)
        want = mat(x.r, 1, lambda i, j: add(mul(a, ite(ini, A.at(i, j), Fraction(0))), mul(sub(1, a), x.at(i, j))))
        c.equal("alpha times the last average plus (1 - alpha) times the input", c.get(r), want)
        c.equal("remembered as the last average", c.get(o, "average"), want)
        c.ensure("no longer the first", c.get(o, "init"))
        c.frame("parameter kept", o, pre, ["average", "init"])

    @S.case("exponential average, construction and parameter", avg)
    def _(c):
        pre = c.snapshot()
        o = c.construct("ExpMovingAvg", c.put(c.v("std::string", "name")))
        c.no_throw("never throws", pre)
        c.ensure("starts over", not_(c.get(o, "init")))
        a = c.real("alpha")
        c.assume(and_(le(0, a), le(a, 1)))
        c.call("ExpMovingAvg::setAlpha", o, c.put(a))
        c.equal("parameter set", c.get(o, "alpha"), a)

    for ty in ("double", VX, MX, Q):
        def mk3(ty):
            D = "Derivator<%s>" % ty
            for first in (True, False):
                def mk4(first):
                    @S.case("derivator of %s, %s" % (NM[ty], "first evaluation" if first else "next evaluations"), der)
                    def _(c):
                        o, r, t = c.obj(D, "d"), c.uninit(ty, "res"), c.int("t")
                        c.set(o, "initialized", not first)
                        x, m, h = c.sig(o, "SIN", t), c.get(o, "memory"), c.get(o, "timestep")
                        c.assume(ne(h, 0))
                        if ty in (VX, MX) and not first:
                            c.assume(and_(eq(x.r, m.r), eq(x.c, m.c)))
                        pre = c.snapshot()
                        c.call("Derivator::computeDerivation", o, r, t, cls=D)
                        c.no_throw("never throws", pre)
                        f = (lambda a, b: Fraction(0)) if first else (lambda a, b: div(sub(a, b), h))
                        want = f(x, m) if ty == "double" else mat(x.r, x.c, lambda i, j: f(x.at(i, j), m.at(i, j) if not first else 0))
                        c.equal("zero" if first else "difference of the last two inputs divided by the time step", c.get(r), want)
                        c.equal("the input is remembered", c.get(o, "memory"), x)
                        c.ensure("no longer the first", c.get(o, "initialized"))
                mk4(first)

            @S.case("derivator of %s, construction" % NM[ty], der)
            def _(c):
                pre = c.snapshot()
                o = c.construct(D, c.put(c.v("std::string", "name")))
                c.no_throw("never throws", pre)
                c.ensure("starts over, time step 1", and_(not_(c.get(o, "initialized")), eq(c.get(o, "timestep"), 1)))
        mk3(ty)

    S.wiring(fir, "FIRFilter<Eigen::Matrix<double, -1, 1, 0, -1, 1>, double>", {"SOUT": "compute"}, label="FIRFilter")
    S.wiring(der, "Derivator<Eigen::Matrix<double, -1, 1, 0, -1, 1>>", {"SOUT": "computeDerivation"}, label="Derivator")
    S.wiring(avg, "ExpMovingAvg", {"averageSOUT": "update"})
