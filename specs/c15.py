from vcgen.spec import *

ID = "C15"
DRIVER = dict(src="c15.cpp", repo=["src/debug/debug.cpp", "src/sot/sot.cpp", "src/sot/memory-task-sot.cpp", "src/task/task.cpp", "src/task/multi-bound.cpp", "src/feature/feature-posture.cpp", "src/feature/feature-abstract.cpp", "src/sot/flags.cpp", "src/task/task-abstract.cpp", "src/exception/*.cpp", "src/factory/pool.cpp"],
              scan=["include/sot/core/sequencer.hh"])
ASSUMPTIONS = ["registered events are live objects, and firing one does not change the schedule",
               "iteration numbers are not negative and events are registered for instants below 2^31",
               "clearAll deletes the events: an event registered several times must not be cleared (the sequencer owns its events)",
               "the play mode is set by a class deriving from Sequencer (it has no public setter)"]
Q = "Sequencer"
EV = "dynamicgraph::sot::Sequencer::sotEventAbstract"


def cases(S):
    tu = S.tu("src/tools/sequencer.cpp", text="#include <sot/core/sequencer.hh>\n#include <sot/core/sot.hh>\n")

    def setup(c):
        o = c.obj(Q, "q")
        log = c.put(Seq(0, lambda i: (0, 0)))
        idt = lambda ex, x: c.addr(x).ident
        c.ex.contracts[EV + "::getName"] = lambda ex, o_, a, e: c.ex.uf("event.name", (idt(ex, o_),), "str")
        c.ex.contracts[EV + "::getEventType"] = lambda ex, o_, a, e: c.ex.uf("event.type", (idt(ex, o_),), "int")
        c.ex.contracts[EV + "::display"] = lambda ex, o_, a, e: None
        return o, c.get(o, "taskMap")

    def same_list(c, a, b, i):
        return and_(eq(a.n, b.n), implies(and_(ge(i, 0), lt(i, b.n)), c.same_ptr(a.at(i), b.at(i))))

    def same_entry(c, m, m0, k, i):
        return and_(eq(zx(m.has(k)), zx(m0.has(k))), implies(m0.has(k), same_list(c, m.get(k), m0.get(k), i)))

    @S.case("registering an event", tu)
    def _(c):
        o, m = setup(c)
        t, u, i = c.nat("t"), c.nat("u"), c.int("i")
        c.assume(ne(t, u))
        e = c.ptr(EV, "event")
        pre = c.snapshot()
        c.call(Q + "::addTask", o, e, t)
        c.no_throw("never throws", pre)
        m2 = c.get(o, "taskMap")
        n = ite(m.has(t), m.get(t).n, 0)
        l = m2.get(t)
        c.ensure("after the events registered before it", and_(m2.has(t), eq(l.n, add(n, 1)), c.same_ptr(l.at(n), e)))
        c.ensure("which are kept in order", implies(and_(m.has(t), ge(i, 0), lt(i, n)), c.same_ptr(l.at(i), m.get(t).at(i))))
        c.ensure("other instants are untouched", same_entry(c, m2, m, u, i))
        c.frame("nothing else", o, pre, ["taskMap"])

    @S.case("removing an event", tu)
    def _(c):
        o, m = setup(c)
        t, u, i, ty, nm = c.nat("t"), c.nat("u"), c.int("i"), c.int("type"), z3.String("name")
        c.assume(ne(t, u))
        l = m.get(t)
        c.assume(implies(m.has(t), ge(l.n, 1)))      # class invariant: no empty list is kept
        match = lambda k: and_(eq(c.ex.uf("event.type", (l.at(k).ident,), "int"), ty), eq(c.ex.uf("event.name", (l.at(k).ident,), "str"), nm))
        pre = c.snapshot()
        c.call(Q + "::rmTask", o, ty, c.put(nm), t)
        c.no_throw("never throws", pre)
        m2 = c.get(o, "taskMap")
        l2 = m2.get(t)
        f = c.int("first")      # the first matching entry
        j = z3.Int("j$f")
        isfirst = and_(m.has(t), ge(f, 0), lt(f, l.n), match(f), z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < f), zx(not_(match(j))))))
        none = or_(not_(m.has(t)), z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < zx(l.n)), zx(not_(match(j))))))
        c.ensure("nothing happens when nothing matches", implies(none, same_entry(c, m2, m, t, i)))
        c.ensure("one entry goes", implies(isfirst, and_(eq(zx(m2.has(t)), zx(gt(l.n, 1))), implies(gt(l.n, 1), eq(l2.n, sub(l.n, 1))))))
        c.ensure("the others stay in order", implies(and_(isfirst, ge(i, 0), lt(i, sub(l.n, 1))), c.same_ptr(l2.at(i), ite(lt(i, f), l.at(i), l.at(add(i, 1))))))
        c.ensure("no empty list is kept", implies(m2.has(t), ge(l2.n, 1)))
        c.ensure("other instants are untouched", same_entry(c, m2, m, u, i))
        c.frame("nothing else", o, pre, ["taskMap"])

    @S.case("clearing", tu)
    def _(c):
        o, m = setup(c)
        pre = c.snapshot()
        c.call(Q + "::clearAll", o)
        c.no_throw("never throws", pre)
        c.ensure("no event is left", not_(c.get(o, "taskMap").has(c.nat("t"))))
        c.frame("nothing else", o, pre, ["taskMap"])

    @S.case("a new sequencer", tu)
    def _(c):
        pre = c.snapshot()
        o = c.construct(Q, z3.String("name"))
        c.no_throw("never throws", pre)
        c.ensure("no event, not started, not running, no stack", and_(not_(c.get(o, "taskMap").has(c.nat("t"))), eq(c.get(o, "timeInit"), -1), not_(c.get(o, "playMode")), c.same_ptr(c.get(o, "sotPtr"), NULL)))

    for when in ("after the start", "before the start"):
        def mkt(when):
            @S.case("triggering " + when, tu)
            def _(c):
                o, m = setup(c)
                g = c.put(Seq(0, lambda i: 0))
                sot = c.get(o, "sotPtr")

                def fire(ex, lv, a, e):
                    ex.oblige("fired on the sequencer's stack", c.same_ptr(ex.rd(a[0]), sot))
                    q, w = ex.rd(g), c.addr(lv).ident
                    n = q.n
                    ex.write(g, Seq(add(n, 1), lambda i: ite(eq(i, n), w, q.f(i))))
                c.ex.contracts[EV + "::operator()"] = fire
                t, i, t0 = c.int("t"), c.int("i"), c.get(o, "timeInit")
                q = z3.Int("q$k")
                c.assume(and_(ge(t, 0), lt(t, 2 ** 31), ge(t0, -1), lt(t0, 2 ** 31)))
                c.assume(z3.ForAll([q], z3.Implies(zx(m.has(q)), z3.And(q >= 0, q < 2 ** 31))))
                s = ite(eq(t0, -1), t, t0)
                c.assume(ge(t, s) if when == "after the start" else lt(t, s))
                play = c.get(o, "playMode")
                pre = c.snapshot()
                c.call(Q + "::trigger", o, c.put(c.int("dummy")), t)
                c.no_throw("never throws", pre)
                c.ensure("the clock starts at the first iteration while running", eq(c.get(o, "timeInit"), ite(play, s, t0)))
                k = sub(t, s)
                l, L = m.get(k), c.get(g)
                due = and_(play, m.has(k))
                nn = lambda x: not_(c.same_ptr(l.at(x), NULL))
                rank = c.sumf(lambda j: ite(nn(j), 1, 0))
                c.ensure("fires nothing else", eq(L.n, ite(due, rank(l.n), 0)))
                c.ensure("fires the events of that instant, in order", implies(and_(due, ge(i, 0), lt(i, l.n), nn(i)), eq(L.at(rank(i)), l.at(i).ident)))
                c.frame("the schedule is kept", o, pre, ["timeInit"])
        mkt(when)

    for cls, meth in (("sotEventAddATask", "push"), ("sotEventRemoveATask", "remove")):
        def mk(cls, meth):
            @S.case("firing: " + cls, tu)
            def _(c):
                o = c.obj(cls, "event")
                task, sot = c.get(o, "taskPtr"), c.ptr("Sot", "sot")
                calls = []
                for w in ("push", "remove"):
                    c.ex.contracts["dynamicgraph::sot::Sot::" + w] = (lambda w: lambda ex, o_, a, e: calls.append((w, c.addr(o_), c.addr(a[0]), and_(*ex.st.pc[len(pre.pc):]))))(w)
                pre = c.snapshot()
                c.call(cls + "::operator()", o, sot)
                c.no_throw("never throws", pre)
                some = and_(not_(c.same_ptr(sot, NULL)), not_(c.same_ptr(task, NULL)))
                c.ensure("at most one operation on the stack", len(calls) == 1)
                for w, s, tk, cond in calls:
                    c.ensure("that one, with the event's task", and_(w == meth, c.same_ptr(s, sot), c.same_ptr(tk, task)))
                    c.ensure("exactly when there is a stack and a task", eq(cond, some))
        mk(cls, meth)
    S.wiring(tu, Q, {"triggerSOUT": "trigger"})
