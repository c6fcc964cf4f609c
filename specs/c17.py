from vcgen.spec import *

ID = "C17"
DRIVER = dict(src="c17.cpp", repo=["src/tools/binary-int-to-uint.cpp", "src/tools/switch.cpp", "src/matrix/operator.cpp", "src/tools/latch.cpp", "src/sot/flags.cpp",
                                   "src/exception/*.cpp", "src/factory/pool.cpp", "src/debug/debug.cpp"],
              scan=["include/sot/core/latch.hh", "include/sot/core/switch.hh", "include/sot/core/variadic-op.hh"])
LATCH = '#include <sot/core/latch.hh>\n'
SWITCH = """#include "tools/switch.cpp"
namespace dynamicgraph { namespace sot {
template class Switch<Vector, int>; template class Switch<bool, int>; template class Switch<MatrixHomogeneous, int>;
} }
"""


def cases(S):
    la = S.tu(text=LATCH)
    bi = S.tu("src/tools/binary-int-to-uint.cpp")
    sw = S.tu(text=SWITCH)
    op = S.tu("src/matrix/operator.cpp")

    @S.case("latch starts off", la)
    def _(c):
        o = c.construct("Latch", c.put(c.v("std::string", "nm"), "nm"))
        c.ensure("off", not_(c.get(o, "signalOutput")))

    for f, sig, val in (("turnOn", False, True), ("turnOff", False, False), ("turnOnLatch", True, True), ("turnOffLatch", True, False)):
        def mk(f, sig, val):
            @S.case("latch " + f, la)
            def _(c):
                o = c.obj("Latch", "l")
                pre = c.snapshot()
                if sig:
                    r = c.uninit("bool", "res")
                    c.call("Latch::" + f, o, r, c.int("t"))
                    c.ensure("the signal gives the new state", eq(zx(c.get(r)), zx(val)))
                else:
                    c.call("Latch::" + f, o)
                c.no_throw("never throws", pre)
                c.ensure("state set", eq(zx(c.get(o, "signalOutput")), zx(val)))
        mk(f, sig, val)

    @S.case("latch output", la)
    def _(c):
        o = c.obj("Latch", "l")
        pre = c.snapshot()
        r = c.uninit("bool", "res")
        c.call("Latch::latchOutput", o, r, c.int("t"))
        c.no_throw("never throws", pre)
        c.ensure("output is the state", eq(zx(c.get(r)), zx(c.at(pre, o, "signalOutput"))))
        c.frame("reading keeps the state", o, pre)

    @S.case("sign converter", bi)
    def _(c):
        o = c.obj("BinaryIntToUint", "b")
        t = c.int("t")
        r = c.uninit("unsigned int", "res")
        pre = c.snapshot()
        x = c.sig(o, "binaryIntSIN", t)
        c.call("BinaryIntToUint::computeOutput", o, r, t)
        c.no_throw("never throws", pre)
        c.ensure("0 exactly for negative inputs, 1 otherwise", eq(c.get(r), ite(lt(x, 0), 0, 1)))

    for cls, ty in (("Switch<Eigen::Matrix<double, -1, 1, 0, -1, 1>, int>", "Eigen::VectorXd"), ("Switch<bool, int>", "bool")):
        def mk2(cls, ty):
            @S.case("switch of " + ty, sw)
            def _(c):
                o = c.obj(cls, "s")
                t = c.int("t")
                r = c.uninit(ty, "res")
                ins = c.get(o, "signalsIN")
                pre = c.snapshot()
                sel = ite(c.plugged(o, "selectionSIN"), c.sig(o, "selectionSIN", t), ite(c.sig(o, "boolSelectionSIN", t), 1, 0))
                c.call("Switch::signal", o, r, c.put(t), cls=cls)
                c.throws_iff("refuses exactly an index that does not exist", not_(rng(sel, ins.n)), pre)
                c.equal("output is the selected input at that time", c.get(r), c.sigof(ins.at(sel), t))
                c.frame("switch unchanged", o, pre)
        mk2(cls, ty)

    for k, nm in ((0, "And"), (1, "Or")):
        def mk3(k, nm):
            @S.case(nm, op)
            def _(c):
                o = c.obj("BoolOp<%d>" % k, "op")
                vs = c.uninit("std::vector<const bool *>", "vs")
                v = c.get(vs)
                r = c.uninit("bool", "res")
                pre = c.snapshot()
                c.call("BoolOp::operator()", o, vs, r, cls="BoolOp<%d>" % k)
                c.no_throw("never throws", pre)
                at = lambda i: zx(c.ex.rd(c.ex.deref(v.at(i))))
                i = c.q("i")
                n = v.n
                allq = z3.ForAll([i], implies(rng(i, n), at(i)))
                anyq = z3.Exists([i], zx(and_(rng(i, n), at(i))))
                c.ensure("result over all inputs", implies(gt(n, 0), eq(zx(c.get(r)), allq if k == 0 else anyq)))

            @S.case(nm + " over the input signals", op)
            def _(c):
                o = c.obj("VariadicOp<dynamicgraph::sot::BoolOp<%d>>" % k, "entity")
                t = c.int("t")
                ins = c.get(o, "signalsIN")
                r = c.uninit("bool", "res")
                pre = c.snapshot()
                c.call("VariadicOp::computeOperation", o, r, t, cls="VariadicOp<dynamicgraph::sot::BoolOp<%d>>" % k)
                c.no_throw("never throws", pre)
                at = lambda i: zx(c.sigof(ins.at(i), t))
                i = c.q("i")
                allq = z3.ForAll([i], implies(rng(i, ins.n), at(i)))
                anyq = z3.Exists([i], zx(and_(rng(i, ins.n), at(i))))
                c.ensure("result over all input signals", implies(gt(ins.n, 0), eq(zx(c.get(r)), allq if k == 0 else anyq)))
        mk3(k, nm)

    @S.case("comparison of numbers", op)
    def _(c):
        o = c.obj("Comparison<double>", "op")
        a, b, r = c.real("a"), c.real("b"), c.uninit("bool", "res")
        pre = c.snapshot()
        c.call("Comparison::operator()", o, c.put(a), c.put(b), r)
        c.no_throw("never throws", pre)
        c.ensure("strictly less", eq(zx(c.get(r)), zx(lt(a, b))))

    for anyc in (True, False):
        for equal in (True, False):
            def mk4(anyc, equal):
                @S.case("comparison of vectors, %s, %s" % ("any" if anyc else "all", "<=" if equal else "<"), op)
                def _(c):
                    o = c.obj("MatrixComparison<Eigen::Matrix<double, -1, 1, 0, -1, 1>, Eigen::Matrix<double, -1, 1, 0, -1, 1>>", "op")
                    c.set(o, "any", anyc)
                    c.set(o, "equal", equal)
                    n = c.nat("n")
                    a, b, r = c.vec("a", n), c.vec("b", n), c.uninit("bool", "res")
                    pre = c.snapshot()
                    c.call("MatrixComparison::operator()", o, c.put(a), c.put(b), r)
                    c.no_throw("never throws", pre)
                    i = c.q("i")
                    p = zx((le if equal else lt)(a.at(i, 0), b.at(i, 0)))
                    c.ensure("logical result over all components", eq(zx(c.get(r)), z3.Exists([i], zx(and_(rng(i, n), p))) if anyc else
                                                                     z3.ForAll([i], implies(rng(i, n), p))))
            mk4(anyc, equal)

    S.wiring(la, "Latch", {"outSOUT": "latchOutput", "turnOnSOUT": "turnOnLatch", "turnOffSOUT": "turnOffLatch"})
    S.wiring(bi, "BinaryIntToUint", {"binaryUintSOUT": "computeOutput"})
    S.wiring(sw, "Switch<bool, int>", {"SOUT": "signal"})
    S.wiring(op, "VariadicOp<dynamicgraph::sot::BoolOp<0>>", {"SOUT": "computeOperation"})
    S.wiring(op, "BinaryOp<dynamicgraph::sot::Comparison<double>>", {"SOUT": "computeOperation"})
