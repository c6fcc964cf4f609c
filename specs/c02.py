from vcgen.spec import *

ID = "C02"
DRIVER = dict(src="c02.cpp", repo=["src/utils/stop-watch.cpp"], scan=["include/sot/core/stop-watch.hh"])
FIELDS = ("clock_start", "total_time", "min_time", "max_time", "last_time", "stops")
CPS = 1000000
ASSUMPTIONS = ["a clock reading is never exactly 0 (0 marks a record without a start) and never decreases",
               "Stopwatch::reset_all and report_all iterate over all records: covered by the driver only"]
MODES = "#include <sot/core/stop-watch.hh>\nnamespace verif { int m_cpu() { return CPU_TIME; } int m_real() { return REAL_TIME; } int m_none() { return NONE; } " \
        "long cps() { return CLOCKS_PER_SEC; } }\n"


def cases(S):
    tu = S.tu("src/utils/stop-watch.cpp", text=MODES)
    X = "StopwatchException"

    def setup(c):
        s = c.obj("Stopwatch", "sw")
        cpu, real, none = (c.call("verif::m_" + x, quiet=True) for x in ("cpu", "real", "none"))
        v = c.get(s)
        c.given(or_(*[eq(v.get("mode"), m) for m in (cpu, real, none)]))
        name, other = z3.String("name"), z3.String("other")
        c.assume(name != other)
        return s, cpu, real, none, name, other

    def rec(c, s, name, st=None):
        def f():
            m = c.ex.rd(c.ex.deref(c.get(s, "records_of")))
            return m.has(name), m.get(name)
        if st is None:
            return f()
        save, c.ex.st = c.ex.st, st
        try:
            return f()
        finally:
            c.ex.st = save

    def same(a, b, fields=FIELDS):
        return and_(*[eq(a.get(f), b.get(f)) for f in fields])

    def same_rec(ra, rb):
        return and_(eq(zx(ra[0]), zx(rb[0])), implies(ra[0], same(ra[1], rb[1])))

    def invariant(c, r):
        """of every record: counted stops are not negative; without a stop the statistics are zero"""
        c.assume(ge(r.get("stops"), 0))
        c.assume(implies(eq(r.get("stops"), 0), and_(eq(r.get("min_time"), 0), eq(r.get("max_time"), 0))))
        c.assume(implies(gt(r.get("stops"), 0), and_(ge(r.get("min_time"), 0), ge(r.get("max_time"), r.get("min_time")))))

    def inv(r):
        return and_(ge(r.get("stops"), 0), implies(eq(r.get("stops"), 0), and_(eq(r.get("min_time"), 0), eq(r.get("max_time"), 0))),
                    implies(gt(r.get("stops"), 0), and_(ge(r.get("min_time"), 0), ge(r.get("max_time"), r.get("min_time")))))

    for active in (True, False):
        for op in ("start", "stop", "pause", "reset"):
            def mk(op, active):
                @S.case("%s while %s" % (op, "enabled" if active else "disabled"), tu)
                def _(c):
                    s, cpu, real, none, name, other = setup(c)
                    c.set(s, "active", active)
                    h0, r0 = rec(c, s, name)
                    o0 = rec(c, s, other)
                    invariant(c, r0)
                    mode = c.get(s, "mode")
                    timed = op in ("start", "stop", "pause")
                    pre = c.snapshot()
                    clk, us = z3.Int("clock"), z3.Int("usec")
                    c.given(clk > 0)
                    c.given(us > 0)
                    c.ex.clock_value, c.ex.usec_value = clk, us
                    t = ite(eq(mode, cpu), z3.ToReal(clk), div(z3.ToReal(us), 1000000))
                    c.call("Stopwatch::" + op, s, c.put(name))
                    exists_needed = op != "start"
                    bad = (or_(not_(h0) if exists_needed else False, eq(mode, none) if timed else False)) if active else False
                    c.throws_iff("throws exactly for an unknown name or without a clock", bad, pre, X)
                    c.on_throw("a throwing call changes no statistics", lambda st, v: and_(
                        implies(h0, same(rec(c, s, name, st)[1], r0)), same_rec(rec(c, s, other, st), o0)))
                    h1, r1 = rec(c, s, name)
                    c.ensure("other names are unaffected", same_rec(rec(c, s, other), o0))
                    c.ensure("mode and switch unchanged", and_(eq(c.get(s, "mode"), mode), eq(zx(c.get(s, "active")), active)))
                    if not active:
                        c.ensure("nothing changes", same_rec((h1, r1), (h0, r0)))
                        return
                    c.ensure("the record exists", h1)
                    if op == "start":
                        c.ensure("the start is recorded", eq(r1.get("clock_start"), t))
                        for f in FIELDS[1:]:
                            c.ensure(f + " unchanged (zero for a new name)", eq(r1.get(f), ite(h0, r0.get(f), 0)))
                    elif op == "reset":
                        for f in FIELDS:
                            c.ensure(f + " cleared", eq(r1.get(f), 0))
                    else:
                        started = ne(r0.get("clock_start"), 0)
                        c.assume(implies(started, ge(t, r0.get("clock_start"))))
                        lapse = div(sub(t, r0.get("clock_start")), ite(eq(mode, cpu), CPS, 1))
                        c.ensure("not started since the last reset: nothing changes", implies(not_(started), same(r1, r0)))
                        g = lambda n, a, b: c.ensure(n, implies(started, eq(a, b)))
                        g("total time", r1.get("total_time"), add(r0.get("total_time"), lapse))
                        if op == "stop":
                            g("stops", r1.get("stops"), add(r0.get("stops"), 1))
                            g("last time", r1.get("last_time"), lapse)
                            first = eq(r0.get("stops"), 0)
                            g("minimum", r1.get("min_time"), ite(or_(first, lt(lapse, r0.get("min_time"))), lapse, r0.get("min_time")))
                            g("maximum", r1.get("max_time"), ite(or_(first, gt(lapse, r0.get("max_time"))), lapse, r0.get("max_time")))
                        else:
                            g("last time", r1.get("last_time"), add(r0.get("last_time"), lapse))
                            for f in ("stops", "min_time", "max_time"):
                                g(f + " unchanged", r1.get(f), r0.get(f))
                    c.ensure("record invariant preserved", inv(r1))
            mk(op, active)

    for fn, field in (("get_total_time", "total_time"), ("get_min_time", "min_time"), ("get_max_time", "max_time"),
                      ("get_last_time", "last_time"), ("get_average_time", None), ("get_time_so_far", "so far")):
        def mk(fn, field):
            @S.case(fn, tu)
            def _(c):
                s, cpu, real, none, name, other = setup(c)
                h0, r0 = rec(c, s, name)
                o0 = rec(c, s, other)
                mode = c.get(s, "mode")
                pre = c.snapshot()
                clk, us = z3.Int("clock"), z3.Int("usec")
                c.ex.clock_value, c.ex.usec_value = clk, us
                v = c.call("Stopwatch::" + fn, s, c.put(name))
                c.throws_iff("throws exactly for an unknown name", or_(not_(h0), eq(mode, none) if field == "so far" else False), pre, X)
                if field == "so far":
                    t = ite(eq(mode, cpu), z3.ToReal(clk), div(z3.ToReal(us), 1000000))
                    want = div(sub(t, r0.get("clock_start")), ite(eq(mode, cpu), CPS, 1))
                    c.ensure("value", eq(v, want))
                elif field:
                    c.ensure("value", eq(v, r0.get(field)))
                else:
                    c.ensure("value", implies(gt(r0.get("stops"), 0), eq(v, div(r0.get("total_time"), r0.get("stops")))))
                c.ensure("changes nothing", and_(same_rec(rec(c, s, name), (h0, r0)), same_rec(rec(c, s, other), o0)))
        mk(fn, field)

    @S.case("performance_exists", tu)
    def _(c):
        s, cpu, real, none, name, other = setup(c)
        h0, r0 = rec(c, s, name)
        o0 = rec(c, s, other)
        pre = c.snapshot()
        v = c.call("Stopwatch::performance_exists", s, c.put(name))
        c.no_throw("never throws", pre)
        c.ensure("value", eq(zx(v), zx(h0)))
        c.ensure("changes nothing", and_(same_rec(rec(c, s, name), (h0, r0)), same_rec(rec(c, s, other), o0)))

    @S.case("set_mode, turn_on, turn_off", tu)
    def _(c):
        s, cpu, real, none, name, other = setup(c)
        r0 = rec(c, s, name)
        m = c.int("m")
        c.call("Stopwatch::set_mode", s, c.put(m))
        c.ensure("mode", eq(c.get(s, "mode"), m))
        c.call("Stopwatch::turn_off", s)
        c.ensure("off", not_(c.get(s, "active")))
        c.call("Stopwatch::turn_on", s)
        c.ensure("on", c.get(s, "active"))
        c.ensure("records unchanged", same_rec(rec(c, s, name), r0))

    @S.case("constructor", tu)
    def _(c):
        m = c.int("m")
        s = c.construct("Stopwatch", c.put(m), n=1)
        c.ensure("enabled", c.get(s, "active"))
        c.ensure("mode", eq(c.get(s, "mode"), m))
        c.ensure("no record", not_(rec(c, s, z3.String("name"))[0]))
