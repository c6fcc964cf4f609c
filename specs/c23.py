from vcgen.spec import *

ID = "C23"
DRIVER = dict(src="c23.cpp", repo=["src/factory/pool.cpp", "src/exception/*.cpp", "src/debug/debug.cpp", "src/task/task-abstract.cpp", "src/feature/feature-abstract.cpp", "src/sot/flags.cpp"],
              scan=["include/sot/core/pool.hh"])
ASSUMPTIONS = ["a registered pointer designates a live object (the pool does not own its entries)",
               "writeGraph, which only prints the entries, is not part of the property"]
P = "PoolStorage"
X = "dynamicgraph::sot::ExceptionFactory"


def unchanged(c, a, b, n):
    """the entry named n is the same in both tables"""
    return and_(eq(zx(a.has(n)), zx(b.has(n))), implies(b.has(n), c.same_ptr(a.get(n), b.get(n))))


CODES = """#include <sot/core/exception-factory.hh>
namespace verif { int conflict() { return dynamicgraph::sot::ExceptionFactory::OBJECT_CONFLICT; } int unknown() { return dynamicgraph::sot::ExceptionFactory::UNREFERED_OBJECT; } }
"""


def cases(S):
    tu = S.tu("src/factory/pool.cpp", text=CODES)
    ta = S.tu("src/task/task-abstract.cpp")
    fa = S.tu("src/feature/feature-abstract.cpp")
    both = {"task": ("registerTask", "getTask", "feature"), "feature": ("registerFeature", "getFeature", "task")}

    for kind, (reg, look, alien) in both.items():
        def mk(kind, reg, look, alien):
            cl = "TaskAbstract" if kind == "task" else "FeatureAbstract"

            def pool(c):
                o = c.obj(P, "pool")
                name, other = z3.String("name"), z3.String("other")
                return o, name, other, c.get(o, kind), c.get(o, alien)

            @S.case("registering a " + kind, tu)
            def _(c):
                o, name, other, m, al = pool(c)
                c.assume(name != other)
                e = c.ptr(cl, "ent")
                pre = c.snapshot()
                c.call(P + "::" + reg, o, c.put(name), e)
                c.throws_iff("refused exactly when the name is taken", m.has(name), pre, X)
                c.on_throw("a refused registration changes nothing", lambda st, v: and_(*[unchanged(c, c.at(st, o, k), x, n) for k, x in ((kind, m), (alien, al)) for n in (name, other)]))
                c.on_throw("the code is OBJECT_CONFLICT", lambda st, v: eq(v.get("code"), c.call("verif::conflict", quiet=True)))
                n = c.get(o, kind)
                c.ensure("the name designates that " + kind, and_(n.has(name), c.same_ptr(n.get(name), e)))
                c.ensure("other names are untouched", unchanged(c, n, m, other))
                c.ensure("the other name space is untouched", and_(unchanged(c, c.get(o, alien), al, name), unchanged(c, c.get(o, alien), al, other)))

            @S.case("looking up a " + kind, tu)
            def _(c):
                o, name, other, m, al = pool(c)
                pre = c.snapshot()
                r = c.call(P + "::" + look, o, c.put(name))
                c.throws_iff("refused exactly when the name is unknown", not_(m.has(name)), pre, X)
                c.on_throw("a refused look-up changes nothing", lambda st, v: and_(*[unchanged(c, c.at(st, o, k), x, n) for k, x in ((kind, m), (alien, al)) for n in (name, other)]))
                c.on_throw("the code is UNREFERED_OBJECT", lambda st, v: eq(v.get("code"), c.call("verif::unknown", quiet=True)))
                c.ensure("exactly the registered object", c.same_ptr(c.addr(r), m.get(name)))
                c.ensure("nothing changes", and_(*[unchanged(c, c.get(o, k), x, n) for k, x in ((kind, m), (alien, al)) for n in (name, other)]))
        mk(kind, reg, look, alien)

    @S.case("the unique instance", tu)
    def _(c):
        g = c.glob("dynamicgraph::sot::PoolStorage::instance_")
        p0 = c.get(g)
        name = z3.String("name")
        pre = c.snapshot()
        p = c.call(P + "::getInstance")
        c.no_throw("never throws", pre)
        some = not_(c.same_ptr(p0, NULL))
        c.ensure("created once: an existing pool is kept", implies(some, c.same_ptr(p, p0)))
        c.ensure("always the current instance, never null", and_(c.same_ptr(p, c.get(g)), not_(c.same_ptr(p, NULL))))
        c.ensure("the same at every call", c.same_ptr(c.call(P + "::getInstance"), p))

    @S.case("a new pool is empty", tu)
    def _(c):
        g = c.glob("dynamicgraph::sot::PoolStorage::instance_")
        name = z3.String("name")
        pre = c.snapshot()
        c.ex.write(g, NULL)
        p = c.call(P + "::getInstance")
        v = c.deref(p)
        c.no_throw("never throws", pre)
        c.ensure("no task and no feature", and_(not_(v.get("task").has(name)), not_(v.get("feature").has(name))))

    @S.case("destroying the pool", tu)
    def _(c):
        g = c.glob("dynamicgraph::sot::PoolStorage::instance_")
        pre = c.snapshot()
        c.call(P + "::destroy")
        c.no_throw("never throws", pre)
        c.ensure("no instance is left", c.same_ptr(c.get(g), NULL))

    for kind, cl, fn, t2 in (("task", "TaskAbstract", "taskRegistration", ta), ("feature", "FeatureAbstract", "featureRegistration", fa)):
        def mk3(kind, cl, fn, t2):
            @S.case("a %s registers itself under its own name" % kind, t2)
            def _(c):
                o = c.obj(cl, "ent")
                calls = []
                c.ex.contracts["dynamicgraph::sot::PoolStorage::register" + kind.capitalize()] = lambda ex, o_, a, e: calls.append((ex.rd(a[0]), ex.rd(a[1])))
                c.ex.contracts["dynamicgraph::sot::PoolStorage::getInstance"] = lambda ex, o_, a, e: c.ptr(P, "pool.instance")
                pre = c.snapshot()
                c.call(cl + "::" + fn, o)
                c.ensure("one registration", len(calls) == 1)
                for n, p in calls:
                    c.ensure("its name", eq(n, c.get(o, "name")))
                    c.ensure("the object itself", c.same_ptr(p, c.addr(o)))
        mk3(kind, cl, fn, t2)
