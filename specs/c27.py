from vcgen.spec import *

ID = "C27"
DRIVER = dict(src="c27.cpp", repo=["src/matrix/operator.cpp", "src/sot/flags.cpp", "src/exception/*.cpp", "src/factory/pool.cpp", "src/debug/debug.cpp"],
              scan=["src/matrix/operator.hh", "include/sot/core/variadic-op.hh", "include/sot/core/binary-op.hh"])
ASSUMPTIONS = ["operands of one operation have matching sizes (the documented precondition)"]
V, M = "Eigen::VectorXd", "Eigen::MatrixXd"
VX, MX = "Eigen::Matrix<double, -1, 1, 0, -1, 1>", "Eigen::Matrix<double, -1, -1, 0, -1, -1>"
M3, M6, H, Q = "Eigen::Matrix<double, 3, 3, 0, 3, 3>", "Eigen::Matrix<double, 6, 6, 0, 6, 6>", "Eigen::Transform<double, 3, 2, 0>", "Eigen::Quaternion<double, 0>"
NM = {"double": "double", VX: "Vector", MX: "Matrix", M3: "MatrixRotation", M6: "MatrixTwist", H: "MatrixHomogeneous", Q: "VectorQuaternion"}
TEXT = """#include "matrix/operator.cpp"
namespace dynamicgraph { namespace sot {
template struct AdderVariadic<double>; template struct AdderVariadic<Vector>; template struct AdderVariadic<Matrix>;
} }
"""


def matprod(ex, a, b):
    k = z3.Int(ex.new("k$mp"))
    if isinstance(a.c, int) or isinstance(b.r, int):
        n = a.c if isinstance(a.c, int) else b.r
        def at(i, j):
            r = Fraction(0)
            for l in range(n):
                r = add(r, mul(a.at(i, l), b.at(l, j)))
            return r
        return mat(a.r, b.c, at)
    return mat(a.r, b.c, lambda i, j: SUM(ex, 0, a.c, k, mul(a.at(i, k), b.at(k, j))))


def qprod(p, q):
    """Hamilton product, coefficients x y z w"""
    a, b = [p.at(i, 0) for i in range(4)], [q.at(i, 0) for i in range(4)]
    s = lambda *t: add(add(add(t[0], t[1]), t[2]), t[3])
    m, w = mul, 3
    r = [s(m(a[w], b[0]), m(a[0], b[w]), m(a[1], b[2]), neg(m(a[2], b[1]))),
         s(m(a[w], b[1]), m(a[1], b[w]), m(a[2], b[0]), neg(m(a[0], b[2]))),
         s(m(a[w], b[2]), m(a[2], b[w]), m(a[0], b[1]), neg(m(a[1], b[0]))),
         s(m(a[w], b[w]), neg(m(a[0], b[0])), neg(m(a[1], b[1])), neg(m(a[2], b[2])))]
    return mat(4, 1, lambda i, j: r[i] if isinstance(i, int) else ite(eq(i, 0), r[0], ite(eq(i, 1), r[1], ite(eq(i, 2), r[2], r[3]))))


def cases(S):
    tu = S.tu(text=TEXT)

    def lin(x, f, *more):
        """entrywise combination"""
        if isinstance(x, Mat):
            return mat(x.r, x.c, lambda i, j: f(x.at(i, j), *[y.at(i, j) for y in more]))
        return f(x, *more)

    def samesize(c, x, y):
        if isinstance(x, Mat):
            c.assume(and_(eq(x.r, y.r), eq(x.c, y.c)))

    for ty in ("double", VX, MX):
        def mk(ty):
            @S.case("difference of " + NM[ty], tu)
            def _(c):
                o = c.obj("Substraction<%s>" % ty, "op")
                a, b, r = c.uninit(ty, "a"), c.uninit(ty, "b"), c.uninit(ty, "res")
                x, y = c.get(a), c.get(b)
                samesize(c, x, y)
                pre = c.snapshot()
                c.call("Substraction::operator()", o, a, b, r, cls="Substraction<%s>" % ty)
                c.no_throw("never throws", pre)
                c.equal("first minus second", c.get(r), lin(x, sub, y))

            @S.case("difference of the input signals, " + NM[ty], tu)
            def _(c):
                o = c.obj("BinaryOp<dynamicgraph::sot::Substraction<%s>>" % ty, "e")
                r, t = c.uninit(ty, "res"), c.int("t")
                x, y = c.sig(o, "SIN1", t), c.sig(o, "SIN2", t)
                samesize(c, x, y)
                pre = c.snapshot()
                c.call("BinaryOp::computeOperation", o, r, t, cls="Substraction<%s>" % ty)
                c.no_throw("never throws", pre)
                c.equal("first input minus second input at that time", c.get(r), lin(x, sub, y))

            @S.case("weighted sum of " + NM[ty], tu)
            def _(c):
                o = c.obj("WeightedAdder<%s>" % ty, "op")
                a, b, r = c.uninit(ty, "a"), c.uninit(ty, "b"), c.uninit(ty, "res")
                x, y = c.get(a), c.get(b)
                samesize(c, x, y)
                g1, g2 = c.get(o, "gain1"), c.get(o, "gain2")
                pre = c.snapshot()
                c.call("WeightedAdder::operator()", o, a, b, r, cls="WeightedAdder<%s>" % ty)
                c.no_throw("never throws", pre)
                c.equal("gain1 times the first plus gain2 times the second", c.get(r), lin(x, lambda u, v: add(mul(g1, u), mul(g2, v)), y))

            @S.case("sum of any number of " + NM[ty], tu)
            def _(c):
                o = c.obj("AdderVariadic<%s>" % ty, "op")
                vs, r = c.uninit("std::vector<const %s *>" % ty, "vs"), c.uninit(ty, "res")
                ins, co = c.get(vs), c.get(o, "coeffs")
                inp = lambda i: c.deref(ins.at(i))
                c.assume(and_(gt(ins.n, 0), eq(co.r, ins.n)))
                if ty != "double":
                    q = c.q("q")
                    c.assume(z3.ForAll([q], implies(rng(q, ins.n), and_(eq(inp(q).r, inp(0).r), eq(inp(q).c, inp(0).c)))))
                pre = c.snapshot()
                c.call("AdderVariadic::operator()", o, vs, r, cls="AdderVariadic<%s>" % ty)
                c.no_throw("never throws", pre)
                w = c.get(r)
                if ty == "double":
                    c.ensure("sum of coefficient times operand", eq(w, c.sumf(lambda i: mul(co.at(i, 0), inp(i)))(ins.n)))
                else:
                    c.ensure("size of the operands", and_(eq(w.r, inp(0).r), eq(w.c, inp(0).c)))
                    k, l = c.int("k"), (0 if ty == VX else c.int("l"))
                    c.assume(and_(rng(k, w.r), rng(l, w.c)))
                    c.ensure("sum of coefficient times operand", eq(w.at(k, l), c.sumf(lambda i: mul(co.at(i, 0), inp(i).at(k, l)))(ins.n)))

            @S.case("coefficients of the sum of " + NM[ty], tu)
            def _(c):
                o = c.obj("AdderVariadic<%s>" % ty, "op")
                n = c.nat("n")
                pre = c.snapshot()
                c.call("AdderVariadic::updateSignalNumber", o, c.put(n), cls="AdderVariadic<%s>" % ty)
                c.no_throw("never throws", pre)
                c.equal("one coefficient 1 per operand", c.get(o, "coeffs"), mat(n, 1, lambda i, j: 1))

            @S.case("setCoeffs of the sum of " + NM[ty], tu)
            def _(c):
                o = c.obj("AdderVariadic<%s>" % ty, "op")
                v = c.uninit(V, "v")
                x = c.get(v)
                n = c.get(c.ex.deref(c.get(o, "entity")), "signalsIN").n
                c.assume(lt(n, 2 ** 31))
                pre = c.snapshot()
                c.call("AdderVariadic::setCoeffs", o, v, cls="AdderVariadic<%s>" % ty)
                c.throws_iff("refuses exactly a wrong number of coefficients", ne(x.r, n), pre)
                c.equal("coefficients set", c.get(o, "coeffs"), x)
                c.on_throw("coefficients kept when refused", lambda st, v: c.eqv(c.get(o, "coeffs"), c.at(pre, o, "coeffs")))
        mk(ty)

    for ty in ("double", VX):
        def mk2(ty):
            @S.case("product of any number of " + NM[ty], tu)
            def _(c):
                o = c.obj("Multiplier<%s>" % ty, "op")
                vs, r = c.uninit("std::vector<const %s *>" % ty, "vs"), c.uninit(ty, "res")
                ins = c.get(vs)
                inp = lambda i: c.deref(ins.at(i))
                c.assume(gt(ins.n, 0))
                if ty != "double":
                    q = c.q("q")
                    c.assume(z3.ForAll([q], implies(rng(q, ins.n), eq(inp(q).r, inp(0).r))))
                pre = c.snapshot()
                c.call("Multiplier::operator()", o, vs, r, cls="Multiplier<%s>" % ty)
                c.no_throw("never throws", pre)
                w = c.get(r)
                k, h = c.q("k"), z3.Real("h$")
                if ty == "double":
                    c.ensure("product of the operands in order", eq(w, REC(c.ex, sub(ins.n, 1), k, inp(0), mul(h, inp(add(k, 1))), h)))
                else:
                    i = c.int("i")
                    c.ensure("size of the operands", eq(w.r, inp(0).r))
                    c.assume(rng(i, w.r))
                    c.ensure("entrywise product of the operands", eq(w.at(i, 0), REC(c.ex, sub(ins.n, 1), k, inp(0).at(i, 0), mul(h, inp(add(k, 1)).at(i, 0)), h)))
        mk2(ty)

    for ty in (MX, M3, M6, H, Q):
        for n in range(4):
            def mk5(ty, n):
                @S.case("product of %d %s" % (n, NM[ty]), tu)
                def _(c):
                    o = c.obj("Multiplier<%s>" % ty, "op")
                    vs, r = c.uninit("std::vector<const %s *>" % ty, "vs"), c.uninit(ty, "res")
                    ins = c.get(vs)
                    c.ex.bounded.append(("product of a list of %s" % NM[ty], "exactly %d operands" % n))
                    vs = c.put(Seq(n, ins.f, ins.et))
                    x = [c.deref(ins.at(i)) for i in range(n)]
                    old = c.get(r)
                    if ty == MX:
                        for a, b in zip(x, x[1:]):
                            c.assume(eq(a.c, b.r))
                    pre = c.snapshot()
                    c.call("Multiplier::operator()", o, vs, r, cls="Multiplier<%s>" % ty)
                    c.no_throw("never throws", pre)
                    w = c.get(r)
                    if ty == H:
                        for y in x:
                            c.assume(and_(*[eq(y.at(3, j), int(j == 3)) for j in range(4)]))
                    if n == 0:
                        if ty == Q:
                            c.ensure("identity", and_(*[eq(w.at(j, 0), int(j == 3)) for j in range(4)]))
                            return
                        i, j = c.int("i"), c.int("j")
                        c.ensure("identity of its size", and_(eq(w.r, old.r), eq(w.c, old.c)))
                        c.assume(and_(rng(i, w.r), rng(j, w.c)))
                        c.ensure("identity", eq(w.at(i, j), ite(eq(i, j), 1, 0)))
                        return
                    want = x[0]
                    for y in x[1:]:
                        want = qprod(want, y) if ty == Q else matprod(c.ex, want, y)
                    c.equal("product of the operands in order", w, want)
            mk5(ty, n)

    for ty, fr, n in ((MX, M, None), (M6, M6, 6), (H, H, 4), ("double", "double", None)):
        def mk3(ty, fr, n):
            nm = NM[ty]
            @S.case("%s times vector" % nm, tu)
            def _(c):
                cls = "Multiplier_FxE__E<%s, %s>" % (ty, VX)
                o = c.obj(cls, "op")
                f, e, r = c.uninit(fr, "f"), c.uninit(V, "e"), c.uninit(V, "res")
                x, y = c.get(f), c.get(e)
                x = hom(c, x)
                if ty != "double":
                    c.assume(eq(y.r, x.c))
                pre = c.snapshot()
                c.call("Multiplier_FxE__E::operator()", o, f, e, r, cls=cls)
                c.no_throw("never throws", pre)
                if ty == "double":
                    c.equal("scaled vector", c.get(r), lin(y, lambda u: mul(x, u)))
                else:
                    c.equal("matrix times vector", c.get(r), matprod(c.ex, x, y))
        mk3(ty, fr, n)

    def hom(c, x):
        """the 4x4 matrix of a pose"""
        return x

    @S.case("norm", tu)
    def _(c):
        o, v, r = c.obj("Normalize", "op"), c.uninit(V, "v"), c.uninit("double", "res")
        x = c.get(v)
        pre = c.snapshot()
        c.call("Normalize::operator()", o, v, r)
        c.no_throw("never throws", pre)
        w = c.get(r)
        c.ensure("not negative, its square is the sum of squares", and_(ge(w, 0), eq(mul(w, w), c.sumf(lambda i: mul(x.at(i, 0), x.at(i, 0)))(x.r))))

    @S.case("composition of rotation and translation", tu)
    def _(c):
        o, R_, t, h = c.obj("Composer", "op"), c.uninit(M, "R"), c.uninit(V, "t"), c.uninit(H, "H")
        x, y = c.get(R_), c.get(t)
        c.assume(and_(eq(x.r, 3), eq(x.c, 3), eq(y.r, 3)))
        pre = c.snapshot()
        c.call("Composer::operator()", o, R_, t, h)
        c.no_throw("never throws", pre)
        w = c.get(h)
        c.ensure("rotation block and translation column", and_(*[eq(w.at(i, j), x.at(i, j) if j < 3 else y.at(i, 0)) for i in range(3) for j in range(4)]))

    @S.case("temporal convolution", tu)
    def _(c):
        o = c.obj("ConvolutionTemporal", "op")
        v, m, r = c.uninit(V, "v"), c.uninit(M, "m"), c.uninit(V, "res")
        x, k, mem = c.get(v), c.get(m), c.get(o, "memory")
        n, w = k.r, k.c
        c.assume(and_(gt(w, 0), eq(x.r, n)))
        q = c.q("q")
        c.assume(z3.ForAll([q], implies(rng(q, mem.n), eq(mem.at(q).r, n))))
        pre = c.snapshot()
        c.call("ConvolutionTemporal::operator()", o, v, m, r)
        c.no_throw("never throws", pre)
        s = c.get(o, "memory")
        want = ite(lt(mem.n, w), add(mem.n, 1), w)
        c.ensure("as many inputs as the kernel has columns", eq(s.n, want))
        p, i = c.int("p"), c.int("i")
        c.assume(and_(rng(p, s.n), rng(i, n)))
        recent = lambda p, i: ite(eq(p, 0), x.at(i, 0), mem.at(sub(p, 1)).at(i, 0))
        c.ensure("the most recent inputs, newest first", eq(s.at(p).at(i, 0), recent(p, i)))
        z = c.get(r)
        c.ensure("length of the kernel's rows", eq(z.r, n))
        c.ensure("kernel applied to the most recent inputs", eq(z.at(i, 0), c.sumf(lambda j: mul(k.at(i, j), recent(j, i)))(want)))

    for e in ("UnaryOp<dynamicgraph::sot::Normalize>", "BinaryOp<dynamicgraph::sot::Composer>", "VariadicOp<dynamicgraph::sot::AdderVariadic<double>>"):
        S.wiring(tu, e, {"SOUT": "computeOperation"})
