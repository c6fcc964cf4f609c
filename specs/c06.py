from vcgen.spec import *

ID = "C06"
DRIVER = dict(src="c06.cpp", repo=["src/debug/debug.cpp", "src/task/task.cpp", "src/task/task-abstract.cpp", "src/task/multi-bound.cpp", "src/feature/feature-abstract.cpp", "src/sot/flags.cpp", "src/exception/*.cpp", "src/factory/pool.cpp"],
              scan=["include/sot/core/task.hh"])
ASSUMPTIONS = ["the features' error, error derivative and Jacobian signals of one feature agree in their number of rows; sizes stay below 2^30"]
V, MX = "Eigen::VectorXd", "Eigen::MatrixXd"
FA = "dynamicgraph::sot::FeatureAbstract"
X = "dynamicgraph::sot::ExceptionTask"

SIGS = ("SignalBase", "TimeDependency", "SignalTimeDependent", "Signal")


def deps(c, pre):
    """log of the dependencies declared by straight-line code: (operation, on which signal, which signal, condition)"""
    log = []
    for op in ("addDependency", "removeDependency"):
        for b in SIGS:
            c.ex.contracts["dynamicgraph::%s::%s" % (b, op)] = (lambda op: lambda ex, o_, a, e: log.append((op, ex.rd(o_), ex.rd(a[0]), and_(*ex.st.pc[len(pre.pc):]))))(op)
    return log


def depends(c, log, op, o, p):
    """each output of the task on the feature's signal of the same kind, and nothing else"""
    f = c.ex.deref(p)
    is_sig = lambda x, y: and_(x.sid == y.sid, len(x.args) == len(y.args), *[eq(p, q) for p, q in zip(x.args, y.args)])
    c.ensure("three dependencies change", len(log) == 3)
    for own, field in (("errorSOUT", "errorSOUT"), ("errorTimeDerivativeSOUT", "errordotSOUT"), ("jacobianSOUT", "jacobianSOUT")):
        c.ensure("%s depends on the feature's" % own, or_(*[and_(w == op, is_sig(s, c.get(o, own)), is_sig(x, c.get(f, field)), pc) for w, s, x, pc in log]))


def cases(S):
    tu = S.tu("src/task/task.cpp")

    def setup(c):
        o = c.obj("Task", "t")
        t = c.int("time")
        l = c.get(o, "featureList")
        return o, t, l

    @S.case("error", tu)
    def _(c):
        o, t, l = setup(c)
        e = lambda k: c.sig(c.deref(l.at(k)), "errorSOUT", t)
        dim = lambda k: e(k).r
        off = c.sumf(dim)
        r = c.uninit(V, "res")
        pre = c.snapshot()
        c.call("Task::computeError", o, r, t)
        c.throws_iff("refused exactly without features", eq(l.n, 0), pre, X)
        y, f, i = c.get(r), c.int("f"), c.int("i")
        c.ensure("as long as all the errors together", and_(eq(y.r, off(l.n)), eq(y.c, 1)))
        c.ensure("each at its place", implies(and_(rng(f, l.n), rng(i, dim(f))), eq(y.at(add(off(f), i), 0), e(f).at(i, 0))))
        c.frame("nothing else changes", o, pre)

    @S.case("error time derivative", tu)
    def _(c):
        o, t, l = setup(c)
        e = lambda k: c.sig(c.deref(l.at(k)), "errordotSOUT", t)
        dim = lambda k: e(k).r
        off = c.sumf(dim)
        # the features' rates have as many rows as their errors (whose concatenation is the task's error)
        c.assume(eq(c.sig(o, "errorSOUT", t).r, off(l.n)))
        r = c.uninit(V, "res")
        pre = c.snapshot()
        c.call("Task::computeErrorTimeDerivative", o, r, t)
        c.no_throw("never refused", pre)
        y, f, i = c.get(r), c.int("f"), c.int("i")
        c.ensure("as long as all the rates together", and_(eq(y.r, off(l.n)), eq(y.c, 1)))
        c.ensure("each at its place", implies(and_(rng(f, l.n), rng(i, dim(f))), eq(y.at(add(off(f), i), 0), e(f).at(i, 0))))
        c.frame("nothing else changes", o, pre)

    @S.case("jacobian", tu)
    def _(c):
        o, t, l = setup(c)
        j = lambda k: c.sig(c.deref(l.at(k)), "jacobianSOUT", t)
        dim = lambda k: j(k).r
        off = c.sumf(dim)
        r = c.uninit(MX, "res")
        pre = c.snapshot()
        c.call("Task::computeJacobian", o, r, t)
        k = c.int("k")
        c.throws_iff("refused exactly without features or with features of another width",
                     or_(eq(l.n, 0), z3.Exists([k], zx(and_(rng(k, l.n), ne(j(k).c, j(0).c))))), pre, "dynamicgraph::sot::ExceptionAbstract")
        y, f, i, q = c.get(r), c.int("f"), c.int("i"), c.int("q")
        c.ensure("as high as all the Jacobians together", and_(eq(y.r, off(l.n)), eq(y.c, j(0).c)))
        c.ensure("each at its place", implies(and_(rng(f, l.n), rng(i, dim(f)), rng(q, j(0).c)), eq(y.at(add(off(f), i), q), j(f).at(i, q))))
        c.frame("nothing else changes", o, pre)

    @S.case("a feature is added at the end", tu)
    def _(c):
        o, t, l = setup(c)
        p = c.ptr(FA, "f")
        log = deps(c, c.snapshot())
        pre = c.snapshot()
        c.call("Task::addFeature", o, c.ex.deref(p), n=1)
        c.no_throw("never refused", pre)
        l2, i = c.get(o, "featureList"), c.int("i")
        c.ensure("one feature more", eq(l2.n, add(l.n, 1)))
        c.ensure("the last", c.same_ptr(l2.at(l.n), p))
        c.ensure("the others where they were", implies(rng(i, l.n), c.same_ptr(l2.at(i), l.at(i))))
        depends(c, log, "addDependency", o, p)

    @S.case("clearing removes every feature", tu)
    def _(c):
        o, t, l = setup(c)
        for b in SIGS:
            c.ex.contracts["dynamicgraph::%s::removeDependency" % b] = lambda ex, o_, a, e: None
        pre = c.snapshot()
        c.call("Task::clearFeatureList", o)
        c.no_throw("never refused", pre)
        c.ensure("nothing is left", eq(c.get(o, "featureList").n, 0))

    ab = ("src/task/task-abstract.cpp", "src/feature/feature-abstract.cpp", "src/sot/flags.cpp")
    S.wiring(S.tu("src/task/task.cpp", *ab), "Task", {"errorSOUT": "computeError", "jacobianSOUT": "computeJacobian", "errorTimeDerivativeSOUT": "computeErrorTimeDerivative"})
