from vcgen.spec import *

ID = "C22"
SRC = "src/dynamic_graph/sot/core/utils/attime.py"
DRIVER = dict(py="c22.py", repo=[SRC])
ASSUMPTIONS = ["actions do not modify the calendar while it runs", "printing has no effect on the schedule",
               "registering under STOP (removal from the actions of every iteration) is exercised by the driver only"]


def cases(S):
    py = S.py(SRC)

    def base(c):
        """an arbitrary calendar: for every time, whether it has a list, and the list's (function, doc) pairs"""
        I, ex = c.py, c.ex

        def entries(tag, args):
            n = ex.uf(tag + ".n", args, "int")
            I.ex.st = I.ex.st.assume(n >= 0)
            return [Seg(n, lambda i: (Act(ex.uf(tag + ".fun", args + (zx(i),), "int")),
                                      Opt(ex.uf(tag + ".nodoc", args + (zx(i),), "bool"), ex.uf(tag + ".doc", args + (zx(i),), "str"))))]

        def look(k):
            if isinstance(k, PyObj):
                tag, args = "ev_" + ("always" if k is I.glob.v["ALWAYS"] else "stop" if k is I.glob.v["STOP"] else "other"), ()
            else:
                tag, args = "ev", (zx(k),)
            return ex.uf(tag + ".has", args, "bool"), lambda: entries(tag, args)
        return look

    def cal(c):
        I = c.py
        b = base(c)
        np = c.ex.uf("ping.n", (), "int")
        c.assume(np >= 0)
        ev = PyDict(I, base=lambda k: (b(k)[0], lambda: PyList(I, b(k)[1]())))
        ping = PyList(I, [Seg(np, lambda i: Act(c.ex.uf("ping.fun", (zx(i),), "int")))])
        return PyObj(I, c.pyname("Calendar"), {"events": ev, "ping": ping}, "calendar")

    def initial(c, k):
        has, mk = base(c)(k)
        return mk() if c.py.branch(has) else None

    def calls(segs, args):
        """the events of calling every function of the (function, doc) pairs in order"""
        return [Seg(s.n, (lambda s: lambda i: ("call", s.f(i)[0].ident, args))(s)) if s.n is not None else Seg(None, ("call", s.f[0].ident, args)) for s in segs]

    def expected_run(c, o, it, args):
        I = c.py
        out = []
        a = initial(c, I.glob.v["ALWAYS"])
        if a is not None:
            out += calls(a, args)
        e = initial(c, it)
        if e is not None:
            n = c.ex.uf("ping.n", (), "int")
            out.append(Seg(n, lambda i: ("call", c.ex.uf("ping.fun", (zx(i),), "int"), ())))
            out += calls(e, args)
        return out

    for na in (0, 2):
        def mk(na):
            @S.case("run (%d arguments)" % na, py)
            def _(c):
                o = cal(c)
                it = c.int("iter")
                args = tuple(Tag("arg%d" % i) for i in range(na))
                c.pycall(c.py.getattr(o, "run"), it, *args)
                exp = expected_run(c, o, it, args)
                c.ensure("the actions of every iteration, the pings, then those of this iteration, in order, and no others",
                         segs_eq(c.py.trace.segs, exp))
                unchanged(c, o, [])
        mk(na)

    def content(c, o, k):
        e = c.py.dict_find(o.attrs["events"], k)
        return None if e is None else e[1]

    def stored(c, o, k, added, name="stored once, at the end of the list of its time"):
        old = initial(c, k)
        new = content(c, o, k)
        c.ensure("a list is stored at that time", new is not None)
        if new is not None:
            c.ensure(name, segs_eq(new.segs, (old or []) + list(added)))

    def unchanged(c, o, keys):
        I = c.py
        k2 = c.int("k2")
        for k in keys:
            if not isinstance(k, PyObj):
                c.assume(k2 != k)
        for k, nm in ((k2, "the other times"), (I.glob.v["ALWAYS"], "the actions of every iteration")):
            if any(k is x for x in keys):
                continue
            old, new = initial(c, k), content(c, o, k)
            c.ensure(nm + " keep their list", (old is None) == (new is None) and (old is None or segs_eq(new.segs, old)))
        n = c.ex.uf("ping.n", (), "int")
        c.ensure("pings unchanged", segs_eq(o.attrs["ping"].segs, [Seg(n, lambda i: Act(c.ex.uf("ping.fun", (zx(i),), "int")))]))

    def nothing_ran(c):
        c.ensure("no action is executed", segs_eq(c.py.trace.segs, []))

    def act(c, n):
        return Act(c.int("f_" + n))

    def docof(c, a):
        return Opt(c.ex.uf("nodoc", (a.ident,), "bool"), c.ex.uf("doc", (a.ident,), "str"))

    def forms(c):
        f, g, d = act(c, "f"), act(c, "g"), z3.String("doc")
        hf = lambda a: c.ex.uf("hasfunctor", (a.ident,), "bool")
        fo = Act(c.ex.uf("functor", (f.ident,), "int"))
        n = c.int("npairs")
        pairs = lambda i: (Act(c.ex.uf("p.fun", (zx(i),), "int")), c.ex.uf("p.doc", (zx(i),), "str"))
        no = lambda a: c.assume(z3.Not(hf(a)))
        return {
            "function and doc": lambda: ([f, d], [Seg(None, (f, d))]),
            "function": lambda: (no(f), ([f], [Seg(None, (f, docof(c, f)))]))[1],
            "decorated function": lambda: (c.assume(hf(f)), ([f], [Seg(None, (fo, docof(c, fo)))]))[1],
            "two functions": lambda: (no(f), no(g), ([f, g], items((f, docof(c, f)), (g, docof(c, g)))))[2],
            "pair": lambda: ([(f, d)], items((f, d))),
            "any number of pairs": lambda: (c.assume(n >= 0), ([pyfront.Star([Seg(n, pairs)])], [Seg(n, pairs)]))[1],
            "pair then function": lambda: (no(g), ([(f, d), g], items((f, d), (g, docof(c, g)))))[1],
        }
    names = ["function and doc", "function", "decorated function", "two functions", "pair", "any number of pairs", "pair then function"]
    for nm in names:
        for via in ("registerEvents", "__call__"):
            for always in (False, True):
                def mk(nm, via, always):
                    @S.case("%s: %s%s" % (via, nm, ", every iteration" if always else ""), py)
                    def _(c):
                        o = cal(c)
                        it = c.py.glob.v["ALWAYS"] if always else c.int("iter")
                        args, added = forms(c)[nm]()
                        if via == "__call__" and nm == "any number of pairs":
                            c.assume(c.int("npairs") >= 1)
                        c.pycall(c.py.getattr(o, via), it, *args)
                        if nm == "any number of pairs" and c.py.branch(c.int("npairs") <= 0):
                            return
                        stored(c, o, it, added)
                        unchanged(c, o, [it])
                        nothing_ran(c)
                mk(nm, via, always)

    @S.case("registerEvent", py)
    def _(c):
        o = cal(c)
        it = c.int("iter")
        p = (act(c, "f"), z3.String("doc"))
        c.pycall(c.py.getattr(o, "registerEvent"), it, p)
        stored(c, o, it, items(p))
        unchanged(c, o, [it])
        nothing_ran(c)

    @S.case("decorator", py)
    def _(c):
        o = cal(c)
        it = c.int("iter")
        f = act(c, "f")
        deco = c.pycall(c.py.getattr(o, "__call__"), it)
        c.ensure("nothing registered yet", len(o.attrs["events"].entries) == 0)
        wrapped = c.py.call(deco, [f])
        nd, d = docof(c, f).isnone, docof(c, f).v
        new = content(c, o, it)
        old = initial(c, it)
        c.ensure("a list is stored at that time", new is not None)
        c.ensure("the function is stored once, at the end", segs_eq(
            [Seg(s.n, (lambda s: lambda i: s.f(i)[0])(s)) if s.n is not None else Seg(None, s.f[0]) for s in new.segs],
            [Seg(s.n, (lambda s: lambda i: s.f(i)[0])(s)) for s in (old or [])] + items(f)))
        unchanged(c, o, [it])
        nothing_ran(c)
        x = Tag("x")
        c.py.call(wrapped, [x])
        c.ensure("the decorated name still calls the function", segs_eq(c.py.trace.segs, items(("call", f.ident, (x,)))))

    @S.case("new calendar", py)
    def _(c):
        o = c.py.call(c.pyname("Calendar"), [])
        k = c.int("k")
        c.ensure("empty", content(c, o, k) is None and content(c, o, c.py.glob.v["ALWAYS"]) is None)
        c.ensure("no ping", segs_eq(o.attrs["ping"].segs, []))
        c.pycall(c.py.getattr(o, "run"), k)
        nothing_ran(c)

    @S.case("module calendar", py)
    def _(c):
        o = c.pyname("attime")
        k = c.int("k")
        c.ensure("a new calendar", isinstance(o, PyObj) and o.cls is c.pyname("Calendar") and content(c, o, k) is None)

    @S.case("pings", py)
    def _(c):
        o = cal(c)
        n = c.ex.uf("ping.n", (), "int")
        f = act(c, "f")
        old = [Seg(n, lambda i: Act(c.ex.uf("ping.fun", (zx(i),), "int")))]
        c.pycall(c.py.getattr(o, "addPing"), f)
        c.ensure("added at the end", segs_eq(o.attrs["ping"].segs, old + items(f)))
        nothing_ran(c)

    @S.case("fastForward", py)
    def _(c):
        o = cal(c)
        t = c.int("t")
        c.py.depth = 1

        def run(I, self_, args, kw):
            if kw:
                raise Unsupported("keyword arguments")
            I.trace.segs.append(Seg(None, ("run",) + tuple(args)))
        c.py.overrides["Calendar.run"] = run
        c.assume(t >= 0)
        c.pycall(c.py.getattr(o, "fastForward"), t)
        c.ensure("runs 0 to t once each in order", segs_eq(c.py.trace.segs, [Seg(add(t, 1), lambda i: ("run", i))]))
