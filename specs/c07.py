from vcgen.spec import *
from .c20 import absv, same, SINGLE, DOUBLE

ID = "C07"
DRIVER = dict(src="c07.cpp", repo=["src/task/task.cpp", "src/task/task-abstract.cpp", "src/task/task-pd.cpp", "src/task/task-unilateral.cpp", "src/task/multi-bound.cpp",
                                   "src/feature/feature-abstract.cpp", "src/sot/flags.cpp", "src/tools/utils-windows.cpp", "src/exception/*.cpp", "src/factory/pool.cpp",
                                   "src/debug/debug.cpp"], scan=["include/sot/core/task*.hh"])
VMB = "std::vector<dynamicgraph::sot::MultiBound>"
ASSUMPTIONS = ["the error derivative signal has the error's length; reference and position signals of the unilateral task have one length"]


def bounds(c, res):
    v = c.get(res)
    return v


def cases(S):
    ta = S.tu("src/task/task.cpp", "src/task/multi-bound.cpp")
    pd = S.tu("src/task/task-pd.cpp", "src/task/task.cpp", "src/task/multi-bound.cpp")
    un = S.tu("src/task/task-unilateral.cpp", "src/task/multi-bound.cpp")

    for wd in (False, True):
        def mk(wd):
            @S.case("task reference, %s error derivative" % ("with" if wd else "without"), ta)
            def _(c):
                o = c.obj("Task", "t")
                c.set(o, "withDerivative", wd)
                t = c.int("time")
                res = c.uninit(VMB, "res")
                e, g = c.sig(o, "errorSOUT", t), c.sig(o, "controlGainSIN", t)
                d = c.sig(o, "errorTimeDerivativeSOUT", t)
                c.assume(eq(d.r, e.r))
                pre = c.snapshot()
                c.call("Task::computeTaskExponentialDecrease", o, res, t)
                c.no_throw("never throws", pre)
                r = c.get(res)
                i = c.int("i")
                c.assume(and_(ge(i, 0), lt(i, e.r)))
                want = neg(mul(e.at(i, 0), g))
                if wd:
                    want = sub(want, d.at(i, 0))
                c.ensure("length of the error", eq(r.n, e.r))
                c.ensure("minus gain times error" + (" minus the error derivative" if wd else ""), same(absv(r.at(i)), False, single=want))
                c.frame("task unchanged", o, pre)
        mk(wd)

    for wd in (False, True):
        def mk2(wd):
            @S.case("proportional-derivative reference, %s error derivative" % ("with" if wd else "without"), pd)
            def _(c):
                o = c.obj("TaskPD", "t")
                c.set(o, "withDerivative", wd)
                t = c.int("time")
                res = c.uninit(VMB, "res")
                e, g = c.sig(o, "errorSOUT", t), c.sig(o, "controlGainSIN", t)
                d, ed = c.sig(o, "errorTimeDerivativeSOUT", t), c.sig(o, "errorDotSIN", t)
                c.assume(and_(eq(d.r, e.r), eq(ed.r, e.r)))
                pre = c.snapshot()
                c.call("TaskPD::computeTaskModif", o, res, t)
                c.no_throw("never throws", pre)
                r = c.get(res)
                i = c.int("i")
                c.assume(and_(ge(i, 0), lt(i, e.r)))
                want = neg(mul(e.at(i, 0), g))
                if wd:
                    want = sub(want, d.at(i, 0))
                want = sub(want, mul(c.get(o, "beta"), ed.at(i, 0)))
                c.ensure("length of the error", eq(r.n, e.r))
                c.ensure("control law of the task minus beta times the error rate", same(absv(r.at(i)), False, single=want))
                c.frame("task unchanged", o, pre)
        mk2(wd)

    @S.case("finite-difference error rate", pd)
    def _(c):
        o = c.obj("TaskPD", "t")
        t = c.int("time")
        res = c.uninit("Eigen::VectorXd", "res")
        e = c.sig(o, "errorSOUT", t)
        pre = c.snapshot()
        p = c.at(pre, o, "previousError")
        c.call("TaskPD::computeErrorDot", o, res, t)
        c.no_throw("never throws", pre)
        r = c.get(res)
        i = c.int("i")
        c.assume(and_(ge(i, 0), lt(i, e.r)))
        c.ensure("length of the error", and_(eq(r.r, e.r), eq(r.c, 1)))
        c.ensure("difference of the last two errors (zero when there is no previous one)",
                 eq(r.at(i, 0), ite(eq(p.r, e.r), sub(e.at(i, 0), p.at(i, 0)), 0)))
        c.equal("the error is remembered", c.get(o, "previousError"), e)
        c.frame("nothing else changes", o, pre, ("previousError",))

    @S.case("unilateral reference", un)
    def _(c):
        o = c.obj("TaskUnilateral", "t")
        t = c.int("time")
        res = c.uninit(VMB, "res")
        p, lo, hi, dt = (c.sig(o, f, t) for f in ("positionSIN", "referenceInfSIN", "referenceSupSIN", "dtSIN"))
        c.assume(and_(eq(lo.r, p.r), eq(hi.r, p.r), ne(dt, 0)))
        pre = c.snapshot()
        c.call("TaskUnilateral::computeTaskUnilateral", o, res, t)
        c.no_throw("never throws", pre)
        r = c.get(res)
        i = c.int("i")
        c.assume(and_(ge(i, 0), lt(i, p.r)))
        c.ensure("length of the position", eq(r.n, p.r))
        c.ensure("double bound (reference minus position) / dt", same(
            absv(r.at(i)), True, infs=True, inf=div(sub(lo.at(i, 0), p.at(i, 0)), dt), sups=True, sup=div(sub(hi.at(i, 0), p.at(i, 0)), dt)))
        c.frame("task unchanged", o, pre)

    ab = ["src/task/task-abstract.cpp", "src/sot/flags.cpp", "src/task/multi-bound.cpp"]
    S.wiring(S.tu("src/task/task.cpp", *ab), "Task", {"taskSOUT": "computeTaskExponentialDecrease", "errorSOUT": "computeError", "jacobianSOUT": "computeJacobian", "errorTimeDerivativeSOUT": "computeErrorTimeDerivative"})
    S.wiring(S.tu("src/task/task-pd.cpp", "src/task/task.cpp", *ab), "TaskPD", {"errorDotSOUT": "computeErrorDot", "taskSOUT": "computeTaskModif"})
    S.wiring(S.tu("src/task/task-unilateral.cpp", "src/task/task.cpp", *ab), "TaskUnilateral", {"taskSOUT": "computeTaskUnilateral"})
