from vcgen.spec import *
from vcgen.lib_std import map_enum

ID = "C16"
DRIVER = dict(src="c16.cpp", repo=["src/debug/debug.cpp", "src/tools/periodic-call.cpp", "src/tools/periodic-call-entity.cpp", "src/exception/*.cpp"],
              scan=["include/sot/core/periodic-call.hh", "include/sot/core/periodic-call-entity.hh"])
ASSUMPTIONS = ["iteration numbers are not negative",
               "refreshing a signal does not register or remove signals of the same periodic call",
               "a registered signal outlives its registration (the pool of signals owns it)",
               "the order in which the signals due at one iteration are refreshed is that of their names (std::map)"]
P = "PeriodicCall"
X = "dynamicgraph::sot::ExceptionTools"
CODES = """#include <sot/core/exception-tools.hh>
"""


def same(c, a, b, n):
    x, y = a.get(n), b.get(n)
    return and_(eq(zx(a.has(n)), zx(b.has(n))), implies(b.has(n), and_(c.same_ptr(x.get("signal"), y.get("signal")), eq(x.get("downsamplingFactor"), y.get("downsamplingFactor")))))


def is_entry(c, m, n, p, f):
    return and_(m.has(n), c.same_ptr(m.get(n).get("signal"), p), eq(m.get(n).get("downsamplingFactor"), f))


def cases(S):
    tu = S.tu("src/tools/periodic-call.cpp")
    te = S.tu("src/tools/periodic-call.cpp", "src/tools/periodic-call-entity.cpp")

    def state(c, cls=P):
        o = c.obj(cls, "pc")
        name, other = z3.String("name"), z3.String("other")
        c.assume(name != other)
        m = c.get(o, "signalMap")
        return o, name, other, m

    def sigref(c, nm):
        return c.ex.deref(c.ptr(ptype("dynamicgraph::SignalBase<int>"), nm))

    def factors(c, m):
        q = z3.String("q$f")
        c.assume(z3.ForAll([q], z3.Implies(zx(m.has(q)), zx(ge(m.get(q).get("downsamplingFactor"), 1)))))

    SB = "dynamicgraph::SignalBase<int>"

    @S.case("registering a signal", tu)
    def _(c):
        o, name, other, m = state(c)
        s = sigref(c, "sig")
        pre = c.snapshot()
        c.call(P + "::addSignal", o, c.put(name), s, pred=lambda f: len(f["params"]) == 2)
        c.no_throw("never throws", pre)
        n = c.get(o, "signalMap")
        c.ensure("the name designates that signal, at every iteration", is_entry(c, n, name, c.addr(s), 1))
        c.ensure("other names are untouched", same(c, n, m, other))

    @S.case("registering a signal with a factor", tu)
    def _(c):
        o, name, other, m = state(c)
        s, f = sigref(c, "sig"), c.nat("factor")
        pre = c.snapshot()
        c.call(P + "::addDownsampledSignal", o, c.put(name), s, c.put(f), pred=lambda f: len(f["params"]) == 3)
        c.throws_iff("refused exactly when the factor is zero", eq(f, 0), pre, X)
        for w in (name, other):
            c.on_throw("a refused registration changes nothing", lambda st, v: same(c, c.at(st, o, "signalMap"), m, w))
        n = c.get(o, "signalMap")
        c.ensure("the name designates that signal with that factor", is_entry(c, n, name, c.addr(s), f))
        c.ensure("other names are untouched", same(c, n, m, other))

    for down in (False, True):
        def mkp(down):
            @S.case("registering a signal by its path" + (", with a factor" if down else ""), tu)
            def _(c):
                o, name, other, m = state(c)
                s, f, asked = sigref(c, "sig"), c.nat("factor"), []
                c.ex.contracts["dynamicgraph::PoolStorage::getInstance"] = lambda ex, o_, a, e: c.ptr("dynamicgraph::PoolStorage", "pool")
                c.ex.contracts["dynamicgraph::PoolStorage::getSignal"] = lambda ex, o_, a, e: asked.append(ex.rd(a[0])) or s
                pre = c.snapshot()
                if down:
                    c.call(P + "::addDownsampledSignal", o, c.put(name), c.put(f), pred=lambda f: len(f["params"]) == 2)
                    c.throws_iff("refused exactly when the factor is zero", eq(f, 0), pre, X)
                    for w in (name, other):
                        c.on_throw("a refused registration changes nothing", lambda st, v: same(c, c.at(st, o, "signalMap"), m, w))
                else:
                    c.call(P + "::addSignal", o, c.put(name), pred=lambda f: len(f["params"]) == 1)
                    c.no_throw("never throws", pre)
                n = c.get(o, "signalMap")
                c.ensure("the signal is looked up once, by that path", and_(len(asked) == 1, *[eq(x.text, name) for x in asked]))
                c.ensure("the path designates the signal found there", is_entry(c, n, name, c.addr(s), f if down else 1))
                c.ensure("other names are untouched", same(c, n, m, other))
        mkp(down)

    @S.case("removing a signal", tu)
    def _(c):
        o, name, other, m = state(c)
        pre = c.snapshot()
        c.call(P + "::rmSignal", o, c.put(name))
        c.no_throw("never throws", pre)
        n = c.get(o, "signalMap")
        c.ensure("the name is free", not_(n.has(name)))
        c.ensure("other names are untouched", same(c, n, m, other))

    @S.case("clearing", tu)
    def _(c):
        o, name, other, m = state(c)
        pre = c.snapshot()
        c.call(P + "::clear", o)
        c.no_throw("never throws", pre)
        c.ensure("nothing is registered", not_(c.get(o, "signalMap").has(name)))

    @S.case("a new periodic call", tu)
    def _(c):
        pre = c.snapshot()
        o = c.construct(P)
        c.no_throw("never throws", pre)
        c.ensure("nothing is registered", not_(c.get(o, "signalMap").has(z3.String("name"))))

    def log(c, t):
        g = c.put(Seq(0, lambda i: 0))

        def recompute(ex, lv, tt):
            ex.oblige("refreshed at the iteration asked for", eq(tt, t))
            q = ex.rd(g)
            w = c.addr(lv).ident
            n = q.n
            ex.write(g, Seq(add(n, 1), lambda i: ite(eq(i, n), w, q.f(i))))
        c.ex.sig_values["recompute"] = recompute
        return g

    for tag, t_, fn, cls, clears in (("runSignals", tu, P + "::runSignals", P, False), ("run", tu, P + "::run", P, False),
                                     ("trigger", te, "PeriodicCallEntity::trigerCall", "PeriodicCallEntity", False),
                                     ("one-shot trigger", te, "PeriodicCallEntity::trigerOnceCall", "PeriodicCallEntity", True)):
        def mk(tag, t_, fn, cls, clears):
            @S.case("refreshing: " + tag, t_)
            def _(c):
                o, name, other, m = state(c, cls)
                factors(c, m)
                t = c.int("t")
                c.assume(ge(t, 0))
                g = log(c, t)
                pre = c.snapshot()
                if cls == P:
                    c.call(fn, o, c.put(t))
                else:
                    c.call(fn, o, c.put(c.int("dummy")), c.put(t))
                c.no_throw("never throws", pre)
                kind, n, key, pos = map_enum(c.ex, m)
                ent = lambda i: m.get(key(i))
                due = lambda i: eq(imod(t, ent(i).get("downsamplingFactor")), 0)
                rank = c.sumf(lambda i: ite(due(i), 1, 0))
                l = c.get(g)
                c.ensure("as many refreshes as entries that are due", eq(l.n, rank(n)))
                i = c.int("i")
                c.assume(and_(ge(i, 0), lt(i, n)))
                c.ensure("each due entry is refreshed once, in its turn", implies(due(i), eq(l.at(rank(i)), ent(i).get("signal").ident)))
                m2 = c.get(o, "signalMap")
                if clears:
                    c.ensure("then nothing is registered any more", not_(m2.has(name)))
                else:
                    c.ensure("the registrations are kept", same(c, m2, m, name))
        mk(tag, t_, fn, cls, clears)

    S.wiring(te, "PeriodicCallEntity", {"triger": "trigerCall", "trigerOnce": "trigerOnceCall"})
