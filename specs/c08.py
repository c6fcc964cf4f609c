from vcgen.spec import *

ID = "C08"
DRIVER = dict(src="c08.cpp", repo=["src/debug/debug.cpp", "src/sot/sot.cpp", "src/sot/memory-task-sot.cpp", "src/task/task.cpp", "src/task/multi-bound.cpp", "src/feature/feature-posture.cpp", "src/feature/feature-abstract.cpp", "src/sot/flags.cpp", "src/task/task-abstract.cpp", "src/exception/*.cpp", "src/factory/pool.cpp"],
              scan=["include/sot/core/sot.hh", "src/sot/sot-command.h"])
ASSUMPTIONS = ["the tasks of a stack are live objects and none of them is null",
               "pop is called on a stack that is not empty (its precondition: the C++ interface gives no answer for an empty stack)",
               "std::list iterators stay valid across the insertion and removal of other elements"]
Q = "Sot"
TA = "dynamicgraph::sot::TaskAbstract"


def cases(S):
    tu = S.tu("src/sot/sot.cpp")

    def setup(c):
        o = c.obj(Q, "s")
        l = c.get(o, "stack")
        j = z3.Int("j$live")
        c.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < zx(l.n)), zx(not_(c.same_ptr(l.at(j), NULL))))))
        c.ex.contracts[TA + "::getName"] = lambda ex, o_, a, e: c.ex.uf("task.name", (c.addr(o_).ident,), "str")
        return o, l, c.ptr(TA, "key")

    def deps(c, pre):
        """log of the dependencies declared or withdrawn by straight-line code: (operation, on which signal, which signal, condition)"""
        log = []
        for op in ("addDependency", "removeDependency"):
            for b in ("SignalBase", "TimeDependency", "SignalTimeDependent", "Signal"):
                c.ex.contracts["dynamicgraph::%s::%s" % (b, op)] = (lambda op: lambda ex, o_, a, e: log.append((op, ex.rd(o_), ex.rd(a[0]), and_(*ex.st.pc[len(pre.pc):]))))(op)
        return log

    def depends(c, log, op, o, key, cond):
        """exactly the two output signals of the task, on the control signal"""
        key = c.ex.deref(key)
        own, want = c.get(o, "controlSOUT"), [c.get(key, f) for f in ("taskSOUT", "jacobianSOUT")]
        is_sig = lambda x, y: and_(x.sid == y.sid, len(x.args) == len(y.args), *[eq(p, q) for p, q in zip(x.args, y.args)])
        c.ensure("two dependencies change", len(log) == 2)
        for (w, s, x, pc), y in zip(sorted(log, key=lambda l: l[2].sid, reverse=True), want):
            c.ensure("that of the control on the task's signal " + y.sid.split(".")[-1], and_(w == op, is_sig(s, own), is_sig(x, y)))
            c.ensure("exactly when it should", eq(zx(pc), zx(cond)))

    def is_key(c, l, key):
        return lambda i: c.same_ptr(l.at(i), key)

    def first(c, l, key, nm="first"):
        """position of the first occurrence: f, assumed by the antecedents below; and 'absent'"""
        f, j = c.int(nm), z3.Int("j$" + nm)
        m = is_key(c, l, key)
        return (f, and_(ge(f, 0), lt(f, l.n), m(f), z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < f), zx(not_(m(j)))))),
                z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < zx(l.n)), zx(not_(m(j))))))

    def kept(c, l2, l, i):
        return and_(eq(l2.n, l.n), implies(and_(ge(i, 0), lt(i, l.n)), c.same_ptr(l2.at(i), l.at(i))))

    @S.case("a new stack", tu)
    def _(c):
        pre = c.snapshot()
        o = c.construct(Q, z3.String("name"))
        c.no_throw("never throws", pre)
        c.ensure("is empty, of unknown size", and_(eq(c.get(o, "stack").n, 0), eq(c.get(o, "nbJoints"), 0), not_(c.get(o, "enablePostureTaskAcceleration"))))

    @S.case("the problem size", tu)
    def _(c):
        o, l, key = setup(c)
        n = c.nat("n")
        pre = c.snapshot()
        c.call(Q + "::defineNbDof", o, c.put(n))
        c.no_throw("never throws", pre)
        c.ensure("is the one given", eq(c.get(o, "nbJoints"), n))
        c.ensure("and is reported", eq(c.ex.rd(c.call(Q + "::getNbDof", o)), n))
        c.frame("nothing else", o, pre, ["nbJoints"])

    @S.case("push", tu)
    def _(c):
        o, l, key = setup(c)
        i, nb = c.int("i"), c.get(o, "nbJoints")
        pre = c.snapshot()
        log = deps(c, pre)
        c.call(Q + "::push", o, c.ex.deref(key))
        c.throws_iff("refused before the size is known", eq(nb, 0), pre, "std::logic_error")
        c.on_throw("and then nothing changes", lambda st, v: kept(c, c.at(st, o, "stack"), l, i))
        l2 = c.get(o, "stack")
        depends(c, log, "addDependency", o, key, ne(nb, 0))
        c.ensure("the task gets the lowest priority", and_(eq(l2.n, add(l.n, 1)), c.same_ptr(l2.at(l.n), key)))
        c.ensure("the others keep theirs", implies(and_(ge(i, 0), lt(i, l.n)), c.same_ptr(l2.at(i), l.at(i))))
        c.frame("nothing else", o, pre, ["stack"])

    @S.case("pop", tu)
    def _(c):
        o, l, key = setup(c)
        i = c.int("i")
        c.assume(ge(l.n, 1))
        pre = c.snapshot()
        log = deps(c, pre)
        r = c.call(Q + "::pop", o)
        c.no_throw("never throws", pre)
        depends(c, log, "removeDependency", o, l.at(sub(l.n, 1)), True)
        c.ensure("returns the task of lowest priority", c.same_ptr(c.addr(r), l.at(sub(l.n, 1))))
        l2 = c.get(o, "stack")
        c.ensure("which leaves the stack", eq(l2.n, sub(l.n, 1)))
        c.ensure("the others keep theirs", implies(and_(ge(i, 0), lt(i, sub(l.n, 1))), c.same_ptr(l2.at(i), l.at(i))))
        c.frame("nothing else", o, pre, ["stack"])

    @S.case("membership", tu)
    def _(c):
        o, l, key = setup(c)
        i = c.int("i")
        f, there, absent = first(c, l, key)
        pre = c.snapshot()
        r = c.call(Q + "::exist", o, c.ex.deref(key))
        c.no_throw("never throws", pre)
        c.ensure("true for the tasks of the stack", implies(and_(ge(i, 0), lt(i, l.n), is_key(c, l, key)(i)), r))
        c.ensure("false for the others", implies(absent, not_(r)))
        c.frame("changes nothing", o, pre, [])

    @S.case("remove", tu)
    def _(c):
        o, l, key = setup(c)
        i = c.int("i")
        f, there, absent = first(c, l, key)
        pre = c.snapshot()
        log = deps(c, pre)
        c.call(Q + "::remove", o, c.ex.deref(key))
        c.no_throw("never throws", pre)
        depends(c, log, "removeDependency", o, key, not_(absent))
        l2 = c.get(o, "stack")
        c.ensure("an unknown task: nothing changes", implies(absent, kept(c, l2, l, i)))
        c.ensure("one entry goes", implies(there, eq(l2.n, sub(l.n, 1))))
        c.ensure("the others keep their order", implies(and_(there, ge(i, 0), lt(i, sub(l.n, 1))), c.same_ptr(l2.at(i), ite(lt(i, f), l.at(i), l.at(add(i, 1))))))
        c.frame("nothing else", o, pre, ["stack"])

    for d, step in (("up", -1), ("down", 1)):
        def mk(d, step):
            @S.case(d, tu)
            def _(c):
                o, l, key = setup(c)
                i = c.int("i")
                f, there, absent = first(c, l, key)
                end = eq(f, 0) if d == "up" else eq(f, sub(l.n, 1))
                pre = c.snapshot()
                c.call(Q + "::" + d, o, c.ex.deref(key))
                c.no_throw("never throws", pre)
                l2 = c.get(o, "stack")
                c.ensure("an unknown task: nothing changes", implies(absent, kept(c, l2, l, i)))
                c.ensure("at that end: nothing changes", implies(and_(there, end), kept(c, l2, l, i)))
                g = add(f, step)
                rng = and_(there, not_(end), ge(i, 0), lt(i, l.n))
                c.ensure("as many tasks", implies(there, eq(l2.n, l.n)))
                c.ensure("exchanged with its neighbour, the others where they were", implies(rng, c.same_ptr(l2.at(i), ite(eq(i, f), l.at(g), ite(eq(i, g), l.at(f), l.at(i))))))
                c.frame("nothing else", o, pre, ["stack"])
        mk(d, step)

    @S.case("clear", tu)
    def _(c):
        o, l, key = setup(c)
        pre = c.snapshot()
        c.call(Q + "::clear", o)
        c.no_throw("never throws", pre)
        c.ensure("no task is left", eq(c.get(o, "stack").n, 0))
        c.frame("nothing else", o, pre, ["stack"])

    for cmd, meth, named in (("Push", "push", 1), ("Remove", "remove", 1), ("Up", "up", 1), ("Down", "down", 1), ("Clear", "clear", 0)):
        def mkc(cmd, meth, named):
            @S.case("command " + cmd, tu)
            def _(c):
                CC = "dynamicgraph::command::Command::"
                K = "dynamicgraph::sot::command::classSot::%s::doExecute" % cmd
                own, nm, log, asked = c.ptr(Q, "owner"), z3.String("name"), [], []
                o = c.obj(K.rsplit("::", 1)[0], "cmd")
                c.ex.contracts[CC + "owner"] = lambda ex, o_, a, e: ex.deref(own)
                c.ex.contracts[CC + "getParameterValues"] = lambda ex, o_, a, e: Seq.of([nm] if named else [])
                c.ex.contracts["dynamicgraph::command::Value::value"] = lambda ex, o_, a, e: ex.rd(o_)
                c.ex.contracts["dynamicgraph::command::EitherType::operator_conv"] = lambda ex, o_, a, e: ex.rd(o_)
                c.ex.contracts["dynamicgraph::command::Value::ctor"] = lambda ex, o_, a, e: ex.rd(a[0]) if a else Opaque("value")
                c.ex.contracts["dynamicgraph::sot::PoolStorage::getInstance"] = lambda ex, o_, a, e: c.ptr("dynamicgraph::sot::PoolStorage", "pool")
                task = c.ptr(TA, "task")
                c.ex.contracts["dynamicgraph::sot::PoolStorage::getTask"] = lambda ex, o_, a, e: (asked.append(ex.rd(a[0])), ex.deref(task))[1]
                for w in ("push", "remove", "up", "down", "clear", "pop"):
                    c.ex.contracts["dynamicgraph::sot::Sot::" + w] = (lambda w: lambda ex, o_, a, e: log.append((w, c.addr(o_), [c.addr(x) for x in a], and_(*ex.st.pc[len(pre.pc):]))))(w)
                pre = c.snapshot()
                c.call(K, o)
                c.no_throw("never throws", pre)
                c.ensure("one operation on the stack", len(log) == 1)
                for w, s, a, pc in log:
                    c.ensure("always that one, on the command's owner", and_(w == meth, c.same_ptr(s, own), eq(zx(pc), True)))
                    if named:
                        c.ensure("for the task of that name", and_(len(a) == 1, len(asked) == 1, c.same_ptr(a[0], task), eq(asked[0], nm)))
        mkc(cmd, meth, named)

    S.wiring(tu, Q, {"controlSOUT": "computeControlLaw"})
