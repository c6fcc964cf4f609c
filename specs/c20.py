from vcgen.spec import *

ID = "C20"
CLS = "MultiBound"
DRIVER = dict(src="c20.cpp", repo=["src/task/multi-bound.cpp", "src/exception/exception-task.cpp", "src/exception/exception-abstract.cpp",
                                   "src/debug/debug.cpp"], scan=["include/sot/core/multi-bound.hh"])
SINGLE, DOUBLE, SUP, INF = 0, 1, 0, 1


def absv(v):
    """abstract value: (is double, single value, inf set, inf, sup set, sup); irrelevant components are masked"""
    d = eq(v.get("mode"), DOUBLE)
    s = eq(v.get("mode"), SINGLE)
    return dict(d=d, s=s, single=v.get("boundSingle"), infs=v.get("boundInfSetup"), inf=v.get("boundInf"),
                sups=v.get("boundSupSetup"), sup=v.get("boundSup"))


def same(a, d, single=None, infs=None, inf=None, sups=None, sup=None):
    """abstract value a is double iff d, with the given contents"""
    cs = [eq(zx(a["d"]), zx(d)), eq(zx(a["s"]), not_(zx(d)))]
    if single is not None:
        cs.append(implies(not_(d), eq(a["single"], single)))
    if infs is not None:
        cs += [implies(d, eq(zx(a["infs"]), zx(infs))), implies(d, eq(zx(a["sups"]), zx(sups)))]
        if inf is not None:
            cs.append(implies(and_(d, infs), eq(a["inf"], inf)))
        if sup is not None:
            cs.append(implies(and_(d, sups), eq(a["sup"], sup)))
    return and_(*cs)


def cases(S):
    tu = S.tu("src/task/multi-bound.cpp")

    def mb(c, name="m"):
        o = c.obj(CLS, name)
        v = c.get(o)
        c.given(or_(eq(v.get("mode"), SINGLE), eq(v.get("mode"), DOUBLE)))
        return o

    @S.case("constructor from one value", tu)
    def _(c):
        x = c.real("x")
        o = c.construct(CLS, c.put(x), n=1)
        c.ensure("single with that value", same(absv(c.get(o)), False, single=x))

    @S.case("constructor from lower and upper value", tu)
    def _(c):
        x, y = c.real("xi"), c.real("xs")
        o = c.construct(CLS, c.put(x), c.put(y), pred=lambda f: "double" in f["params"][1]["t"])
        c.ensure("double with those values", same(absv(c.get(o)), True, infs=True, inf=x, sups=True, sup=y))

    @S.case("constructor from one side", tu)
    def _(c):
        x, t = c.real("x"), c.int("side")
        c.assume(or_(eq(t, SUP), eq(t, INF)))
        o = c.construct(CLS, c.put(x), c.put(t), pred=lambda f: len(f["params"]) == 2 and "double" not in f["params"][1]["t"])
        c.ensure("double with that side only", same(absv(c.get(o)), True, infs=eq(t, INF), inf=x, sups=eq(t, SUP), sup=x))

    @S.case("copy", tu)
    def _(c):
        o = mb(c, "src")
        pre = c.snapshot()
        A = absv(c.get(o))
        q = [f for f in tu.fns.values() if f["qn"] == "dynamicgraph::sot::MultiBound::ctor" and len(f["params"]) == 1
             and "MultiBound" in f["params"][0]["t"] and not f.get("implicit_copy")]
        if not q:
            c.notes.append("implicit copy constructor")
            c.ensure("implicit copy constructor copies member-wise", True)
            return
        n = c.put(Struct(c.cls(CLS), {}, c.ex.symrec(c.cls(CLS), "new_uninit").mk))
        c.call(q[0], n, o)
        c.ensure("same abstract value", same(absv(c.get(n)), A["d"], A["single"], A["infs"], A["inf"], A["sups"], A["sup"]))
        c.frame("source unchanged", o, pre)

    @S.case("getMode", tu)
    def _(c):
        o = mb(c)
        pre = c.snapshot()
        r = c.call("MultiBound::getMode", o)
        c.ensure("mode", eq(eq(r, DOUBLE), zx(absv(c.at(pre, o))["d"])))
        c.frame("pure", o, pre)

    @S.case("getSingleBound", tu)
    def _(c):
        o = mb(c)
        pre = c.snapshot()
        A = absv(c.get(o))
        r = c.call("MultiBound::getSingleBound", o)
        c.throws_iff("throws the task exception exactly on a double bound", A["d"], pre, "dynamicgraph::sot::ExceptionTask")
        c.ensure("value", eq(r, A["single"]))
        c.frame("pure", o, pre)

    @S.case("getDoubleBound", tu)
    def _(c):
        o = mb(c)
        t = c.int("side")
        c.assume(or_(eq(t, SUP), eq(t, INF)))
        pre = c.snapshot()
        A = absv(c.get(o))
        r = c.call("MultiBound::getDoubleBound", o, c.put(t))
        c.throws_iff("throws the task exception exactly when that side is not held",
                     or_(not_(A["d"]), and_(eq(t, SUP), not_(A["sups"])), and_(eq(t, INF), not_(A["infs"]))), pre,
                     "dynamicgraph::sot::ExceptionTask")
        c.ensure("value", eq(r, ite(eq(t, SUP), A["sup"], A["inf"])))
        c.frame("pure", o, pre)

    @S.case("getDoubleBoundSetup", tu)
    def _(c):
        o = mb(c)
        t = c.int("side")
        c.assume(or_(eq(t, SUP), eq(t, INF)))
        pre = c.snapshot()
        A = absv(c.get(o))
        r = c.call("MultiBound::getDoubleBoundSetup", o, c.put(t))
        c.throws_iff("throws the task exception exactly on a single bound", not_(A["d"]), pre, "dynamicgraph::sot::ExceptionTask")
        c.ensure("value", eq(zx(r), zx(ite(eq(t, SUP), A["sups"], A["infs"]))))
        c.frame("pure", o, pre)

    @S.case("setDoubleBound", tu)
    def _(c):
        o = mb(c)
        t, x = c.int("side"), c.real("x")
        c.assume(or_(eq(t, SUP), eq(t, INF)))
        pre = c.snapshot()
        A = absv(c.get(o))
        c.call("MultiBound::setDoubleBound", o, c.put(t), c.put(x))
        c.no_throw("never throws", pre)
        c.ensure("that side set, the other one as before (unset when it was single)", same(
            absv(c.get(o)), True, infs=or_(eq(t, INF), and_(A["d"], A["infs"])), inf=ite(eq(t, INF), x, A["inf"]),
            sups=or_(eq(t, SUP), and_(A["d"], A["sups"])), sup=ite(eq(t, SUP), x, A["sup"])))

    @S.case("unsetDoubleBound", tu)
    def _(c):
        o = mb(c)
        t = c.int("side")
        c.assume(or_(eq(t, SUP), eq(t, INF)))
        pre = c.snapshot()
        A = absv(c.get(o))
        c.call("MultiBound::unsetDoubleBound", o, c.put(t))
        c.no_throw("never throws", pre)
        c.ensure("that side unset, the other one as before (unset when it was single)", same(
            absv(c.get(o)), True, infs=and_(A["d"], A["infs"], ne(t, INF)), inf=A["inf"],
            sups=and_(A["d"], A["sups"], ne(t, SUP)), sup=A["sup"]))

    @S.case("setSingleBound", tu)
    def _(c):
        o = mb(c)
        x = c.real("x")
        pre = c.snapshot()
        c.call("MultiBound::setSingleBound", o, c.put(x))
        c.no_throw("never throws", pre)
        c.ensure("single with that value", same(absv(c.get(o)), False, single=x))
