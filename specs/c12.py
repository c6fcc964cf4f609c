from vcgen.spec import *

ID = "C12"
DRIVER = dict(src="c12.cpp", repo=["src/matrix/operator.cpp", "src/matrix/matrix-constant.cpp", "src/matrix/vector-constant.cpp", "src/sot/flags.cpp", "src/exception/*.cpp", "src/factory/pool.cpp", "src/debug/debug.cpp"],
              scan=["src/matrix/operator.hh"])
ASSUMPTIONS = ["the selected ranges lie inside the operands (the documented precondition of the operators); assertions are compiled out"]
V = "Eigen::VectorXd"
M = "Eigen::MatrixXd"


def cases(S):
    tu = S.tu("src/matrix/operator.cpp")

    def run1(c, cls, fields=None, rt=V, it=V):
        o = c.obj(cls, "op")
        m, r = c.uninit(it, "m"), c.uninit(rt, "res")
        return o, m, r

    @S.case("selection of segments of a vector", tu)
    def _(c):
        o, m, r = run1(c, "VectorSelecter")
        v = c.get(m)
        ids = c.get(o, "idxs")
        st = lambda i: c.ex.rd(ids.at(i)).get("first")
        ln = lambda i: c.ex.rd(ids.at(i)).get("second")
        q = c.q("q")
        c.assume(z3.ForAll([q], implies(rng(q, ids.n), and_(ge(st(q), 0), ge(ln(q), 0), le(add(st(q), ln(q)), v.r)))))
        off = c.sumf(ln)
        c.assume(eq(c.get(o, "size"), off(ids.n)))
        pre = c.snapshot()
        c.call("VectorSelecter::operator()", o, m, r)
        c.no_throw("never throws", pre)
        w = c.get(r)
        c.ensure("length is the sum of the segment lengths", eq(w.r, off(ids.n)))
        f, k = c.int("f"), c.int("k")
        c.assume(and_(rng(f, ids.n), rng(k, ln(f))))
        c.ensure("entry k of segment f", eq(w.at(add(off(f), k), 0), v.at(add(st(f), k), 0)))

    @S.case("setBounds", tu)
    def _(c):
        o = c.obj("VectorSelecter", "op")
        m, M_ = c.int("m"), c.int("M")
        pre = c.snapshot()
        c.call("VectorSelecter::setBounds", o, c.put(m), c.put(M_))
        c.no_throw("never throws", pre)
        s = c.get(o, "idxs")
        c.ensure("one segment", and_(eq(s.n, 1), eq(c.ex.rd(s.at(0)).get("first"), m), eq(c.ex.rd(s.at(0)).get("second"), sub(M_, m))))
        c.ensure("size", eq(c.get(o, "size"), sub(M_, m)))

    @S.case("addBounds", tu)
    def _(c):
        o = c.obj("VectorSelecter", "op")
        m, M_ = c.int("m"), c.int("M")
        pre = c.snapshot()
        a = c.get(o, "idxs")
        c.call("VectorSelecter::addBounds", o, c.put(m), c.put(M_))
        c.no_throw("never throws", pre)
        s = c.get(o, "idxs")
        c.ensure("one segment more", and_(eq(s.n, add(a.n, 1)), eq(c.ex.rd(s.at(a.n)).get("first"), m), eq(c.ex.rd(s.at(a.n)).get("second"), sub(M_, m))))
        q = c.int("q")
        c.ensure("previous segments kept", implies(rng(q, a.n), c.eqv(s.at(q), a.at(q))))
        c.ensure("size", eq(c.get(o, "size"), add(c.at(pre, o, "size"), sub(M_, m))))

    @S.case("a new selector selects nothing", tu)
    def _(c):
        o = c.construct("VectorSelecter")
        c.ensure("no segment, size 0", and_(eq(c.get(o, "idxs").n, 0), eq(c.get(o, "size"), 0)))

    @S.case("component of a vector", tu)
    def _(c):
        o, m, r = run1(c, "VectorComponent", rt="double")
        i = c.int("i")
        c.call("VectorComponent::setIndex", o, c.put(i))
        v = c.get(m)
        c.assume(rng(i, v.r))
        pre = c.snapshot()
        c.call("VectorComponent::operator()", o, m, r)
        c.no_throw("never throws", pre)
        c.ensure("that component", eq(c.get(r), v.at(i, 0)))

    @S.case("block of a matrix", tu)
    def _(c):
        o, m, r = run1(c, "MatrixSelector", rt=M, it=M)
        v = c.get(m)
        a, b, d, e = [c.int(x) for x in ("imin", "imax", "jmin", "jmax")]
        c.call("MatrixSelector::setBoundsRow", o, c.put(a), c.put(b))
        c.call("MatrixSelector::setBoundsCol", o, c.put(d), c.put(e))
        c.assume(and_(ge(a, 0), le(a, b), le(b, v.r), ge(d, 0), le(d, e), le(e, v.c)))
        pre = c.snapshot()
        c.call("MatrixSelector::operator()", o, m, r)
        c.no_throw("never throws", pre)
        c.equal("that block", c.get(r), mat(sub(b, a), sub(e, d), lambda i, j: v.at(add(a, i), add(d, j))))

    @S.case("part of a column", tu)
    def _(c):
        o, m, r = run1(c, "MatrixColumnSelector", it=M)
        v = c.get(m)
        a, b, d = [c.int(x) for x in ("imin", "imax", "jcol")]
        c.call("MatrixColumnSelector::setBoundsRow", o, c.put(a), c.put(b))
        c.call("MatrixColumnSelector::selectCol", o, c.put(d))
        c.assume(and_(ge(a, 0), le(a, b), le(b, v.r), rng(d, v.c)))
        pre = c.snapshot()
        c.call("MatrixColumnSelector::operator()", o, m, r)
        c.no_throw("never throws", pre)
        c.equal("that part of the column", c.get(r), mat(sub(b, a), 1, lambda i, j: v.at(add(a, i), d)))

    @S.case("transposition", tu)
    def _(c):
        o, m, r = run1(c, "MatrixTranspose", rt=M, it=M)
        v = c.get(m)
        pre = c.snapshot()
        c.call("MatrixTranspose::operator()", o, m, r)
        c.no_throw("never throws", pre)
        c.equal("transpose", c.get(r), mat(v.c, v.r, lambda i, j: v.at(j, i)))

    @S.case("diagonal", tu)
    def _(c):
        o, m, r = run1(c, "Diagonalizer", rt=M)
        v = c.get(m)
        pre = c.snapshot()
        c.call("Diagonalizer::operator()", o, m, r)
        c.no_throw("never throws", pre)
        c.equal("diagonal matrix", c.get(r), mat(v.r, v.r, lambda i, j: ite(eq(i, j), v.at(i, 0), 0)))

    @S.case("stack of two selections", tu)
    def _(c):
        o = c.obj("VectorStack", "op")
        x, y, r = c.uninit(V, "x"), c.uninit(V, "y"), c.uninit(V, "res")
        v1, v2 = c.get(x), c.get(y)
        a, b, d, e = [c.int(n) for n in ("min1", "max1", "min2", "max2")]
        c.call("VectorStack::selec1", o, c.put(a), b)
        c.call("VectorStack::selec2", o, c.put(d), e)
        c.assume(and_(ge(a, 0), le(a, b), le(b, v1.r), ge(d, 0), le(d, e), le(e, v2.r)))
        pre = c.snapshot()
        c.call("VectorStack::operator()", o, x, y, r)
        c.no_throw("never throws", pre)
        c.equal("first selection then second", c.get(r), mat(add(sub(b, a), sub(e, d)), 1, lambda i, j: ite(
            lt(i, sub(b, a)), v1.at(add(a, i), 0), v2.at(add(d, sub(i, sub(b, a))), 0))))

    @S.case("mix of vectors", tu)
    def _(c):
        o = c.obj("VectorMix", "op")
        vs, r = c.uninit("std::vector<const Eigen::VectorXd *>", "vs"), c.uninit(V, "res")
        ids, ins = c.get(o, "idxs"), c.get(vs)
        g = lambda i, f: c.ex.rd(ids.at(i)).get(f)
        inp = lambda s: c.deref(ins.at(s))
        q = c.q("q")
        base = inp(0)
        c.assume(gt(ins.n, 0))
        c.assume(z3.ForAll([q], implies(and_(rng(q, ids.n), lt(g(q, "sigIdx"), ins.n)), and_(
            ge(g(q, "index"), 0), ge(g(q, "size"), 0), le(add(g(q, "index"), g(q, "size")), base.r), eq(inp(g(q, "sigIdx")).r, g(q, "size"))))))
        pre = c.snapshot()
        c.call("VectorMix::operator()", o, vs, r)
        q2 = c.q("q")
        c.throws_iff("refuses exactly an input that does not exist", z3.Exists([q2], zx(and_(rng(q2, ids.n), ge(g(q2, "sigIdx"), ins.n)))), pre)
        w = c.get(r)
        c.ensure("length of the default", eq(w.r, base.r))
        k, s = c.int("k"), c.int("s")
        inside = lambda s: and_(rng(s, ids.n), ge(k, g(s, "index")), lt(k, add(g(s, "index"), g(s, "size"))))
        c.assume(rng(k, base.r))
        q3 = c.q("q")
        c.ensure("an entry of no segment is that of the default", implies(not_(z3.Exists([q3], zx(inside(q3)))), eq(w.at(k, 0), base.at(k, 0))))
        q4 = c.q("q")
        c.ensure("an entry of a segment is that of the last input placed there", implies(
            and_(inside(s), not_(z3.Exists([q4], zx(and_(gt(q4, s), inside(q4)))))), eq(w.at(k, 0), inp(g(s, "sigIdx")).at(sub(k, g(s, "index")), 0))))

    @S.case("mix: addSelec", tu)
    def _(c):
        o = c.obj("VectorMix", "op")
        a, b, d = c.int("sig"), c.int("i"), c.int("s")
        c.assume(ge(a, 0))
        pre = c.snapshot()
        p = c.get(o, "idxs")
        c.call("VectorMix::addSelec", o, c.put(a), c.put(b), c.put(d))
        c.no_throw("never throws", pre)
        s = c.get(o, "idxs")
        l = c.ex.rd(s.at(p.n))
        c.ensure("one segment more", and_(eq(s.n, add(p.n, 1)), eq(l.get("sigIdx"), a), eq(l.get("index"), b), eq(l.get("size"), d)))
        q = c.int("q")
        pq, sq = c.ex.rd(p.at(q)), c.ex.rd(s.at(q))
        c.ensure("previous segments kept", implies(rng(q, p.n), and_(*[eq(pq.get(f), sq.get(f)) for f in ("sigIdx", "index", "size")])))

    for cls, src, ty in (("MatrixConstant", "src/matrix/matrix-constant.cpp", M), ("VectorConstant", "src/matrix/vector-constant.cpp", V)):
        def mk(cls, tc, ty):
            @S.case(cls, tc)
            def _(c):
                o = c.obj(cls, "o")
                v = c.uninit(ty, "v")
                pre = c.snapshot()
                c.call(cls + "::setValue", o, v)
                c.no_throw("never throws", pre)
                c.equal("the output is the given value at every time", c.sig(o, "SOUT", c.int("t")), c.at(pre, v))
        mk(cls, S.tu(src), ty)

    for e in ("UnaryOp<dynamicgraph::sot::VectorSelecter>", "UnaryOp<dynamicgraph::sot::VectorComponent>", "UnaryOp<dynamicgraph::sot::MatrixSelector>",
              "UnaryOp<dynamicgraph::sot::MatrixColumnSelector>", "UnaryOp<dynamicgraph::sot::Diagonalizer>", "UnaryOp<dynamicgraph::sot::MatrixTranspose>",
              "BinaryOp<dynamicgraph::sot::VectorStack>", "VariadicOp<dynamicgraph::sot::VectorMix>"):
        S.wiring(tu, e, {"SOUT": "computeOperation"})
