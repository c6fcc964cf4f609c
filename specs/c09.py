from vcgen.spec import *
import itertools
from fractions import Fraction
from vcgen import lib_dg, lib_eigen
from .c20 import absv, SINGLE, DOUBLE

ID = "C09"
DRIVER = dict(src="c09.cpp", repo=["src/debug/debug.cpp", "src/sot/sot.cpp", "src/sot/memory-task-sot.cpp", "src/task/task.cpp", "src/task/multi-bound.cpp", "src/feature/feature-posture.cpp", "src/feature/feature-abstract.cpp", "src/sot/flags.cpp", "src/task/task-abstract.cpp", "src/exception/*.cpp", "src/factory/pool.cpp"],
              scan=["include/sot/core/sot.hh", "src/sot/sot-command.h", "include/sot/core/memory-task-sot.hh"])
ASSUMPTIONS = ["Eigen's singular value decomposition: matrixU has as many rows as the decomposed matrix, matrixV as many as it has columns, both at least as many columns as there are singular values, of which there are as many as the smaller dimension; that the factors are those of the matrix is Eigen's business",
               "a task is in the stack once, and its signals keep the value they have at the time of the control law while it is computed",
               "the initial projector has no more columns than the robot has joints; the inversion threshold is not negative",
               "the passage from one task to the next is proved on stacks of up to three tasks, with arbitrary initial velocity and projector; every size is arbitrary"]
V, MX = "Eigen::VectorXd", "Eigen::MatrixXd"
MEM = "dynamicgraph::sot::MemoryTaskSOT"
TA = "dynamicgraph::sot::TaskAbstract"
X = "dynamicgraph::sot::ExceptionTask"


def cases(S):
    tu = S.tu("src/sot/sot.cpp", "src/task/multi-bound.cpp", "src/sot/memory-task-sot.cpp")

    @S.case("task reference to vector", tu)
    def _(c):
        v = c.put(c.v("std::vector<dynamicgraph::sot::MultiBound>", "ref"))
        r = c.uninit(V, "res")
        kk = z3.Int("k$modes")
        md = lambda k: c.get(v).at(k).get("mode")
        c.given(z3.ForAll([kk], zx(or_(eq(md(kk), SINGLE), eq(md(kk), DOUBLE)))))
        pre = c.snapshot()
        c.call("Sot::taskVectorToMlVector", None, v, r)
        l = c.get(v)
        k, i = c.int("k"), c.int("i")
        single = lambda k: not_(absv(l.at(k))["d"])
        c.throws_iff("refused exactly when some component is not a single bound", z3.Exists([k], zx(and_(rng(k, l.n), not_(single(k))))), pre, X)
        y = c.get(r)
        c.ensure("as long as the reference", and_(eq(y.r, l.n), eq(y.c, 1)))
        c.ensure("every component keeps its value", implies(rng(i, l.n), eq(y.at(i, 0), absv(l.at(i))["single"])))
        c.ensure("the reference is not touched", implies(rng(i, l.n), c.eqv(c.get(v).at(i), l.at(i))))

    for kern in (False, True):
        @S.case("one increment, %s kernel" % ("with a" if kern else "without a"), tu)
        def _(c, kern=kern):
            mem = c.obj(MEM, "mem")
            d, n, m, p, rank, q = c.nat("dim"), c.nat("joints"), c.nat("values"), c.nat("vcols"), c.nat("rank"), c.nat("kernelcols")
            U, s = c.matrix("U", d, m), c.vec("s", m)
            Vm = c.matrix("V", q if kern else n, p)
            c.assume(and_(le_(rank, m), le_(m, p), le_(m, d)))
            for f, x in (("matrixU", U), ("matrixV", Vm), ("singularValues", s)):
                c.ex.contracts["Eigen::SVDBase::" + f] = (lambda x: lambda ex, o, a, e: x)(x)
            err = c.get(mem, "err")
            c.assume(and_(eq(err.r, d), ge(c.get(mem, "tmpTask").r, rank), ge(c.get(mem, "tmpVar").r, q)))
            K = c.matrix("K", n, q) if kern else c.matrix("K", 0, 0)
            u, th = c.put(c.vec("control", n)), c.real("threshold")
            i, j = c.int("i"), c.int("j")
            # nothing is divided by zero: the singular values retained exceed the threshold of the inversion
            c.assume(z3.ForAll([j], zx(implies(rng(j, rank), gt(s.at(j, 0), 0)))))
            pre = c.snapshot()
            k, l, o = z3.Int("k$w"), z3.Int("l$w"), z3.Int("o$w")
            u0 = c.get(u)
            r = c.call("updateControl", None, c.addr(mem), rank, kern, K, u, th)
            c.no_throw("never throws", pre)
            sm = lambda v, hi, f: c.sumf(f)(hi)
            w = lambda k: div(sm(l, err.r, lambda l: mul(U.at(l, k), err.at(l, 0))), s.at(k, 0))
            z = lambda i: sm(k, rank, lambda k: mul(Vm.at(i, k), w(k)))
            Km = K
            inc = (lambda i: sm(o, q, lambda o: mul(Km.at(i, o), z(o)))) if kern else z
            u1 = c.get(u)
            sq = c.sumf(lambda k: mul(inc(k), inc(k)))(n)
            c.ensure("accepted exactly up to the limit", eq(zx(r), zx(not_(gt(sq, th)))))
            c.ensure("the control keeps its size", and_(eq(u1.r, n), eq(u1.c, 1)))
            c.ensure("an accepted increment is added", implies(and_(r, rng(i, n)), eq(u1.at(i, 0), add(u0.at(i, 0), inc(i)))))
            c.ensure("a refused one leaves the control as it was", implies(and_(not_(r), rng(i, n)), eq(u1.at(i, 0), u0.at(i, 0))))


    def stack(c, n):
        o = c.obj("Sot", "s")
        l = c.get(o, "stack")
        c.assume(eq(l.n, n))
        return o, l

    @S.case("no task", tu)
    def _(c):
        o, l = stack(c, 0)
        t = c.int("time")
        u = c.uninit(V, "control")
        plug = c.plugged(o, "q0SIN")
        q0 = c.sig(o, "q0SIN", t)
        nj = c.get(o, "nbJoints")
        pre = c.snapshot()
        c.call("Sot::computeControlLaw", o, u, t)
        c.throws_iff("refused exactly without an initial velocity, or with one of the wrong length", or_(not_(plug), ne(q0.r, nj)), pre)
        i = c.int("i")
        c.ensure("the control is the initial velocity", and_(eq(c.get(u).r, nj), implies(rng(i, nj), eq(c.get(u).at(i, 0), q0.at(i, 0)))))

    def law(c, ntasks, q0, proj, accepted, full=False):
        """the control law on a stack of ntasks tasks"""
        o = c.obj("Sot", "s")
        tp = [c.ptr(TA, "task%d" % i) for i in range(ntasks)]
        t, n = c.int("time"), c.get(o, "nbJoints")
        for i, p in enumerate(tp):
            # each task once
            for k in range(i):
                c.assume(ne(p.ident, tp[k].ident))
        c.set(o, "stack", Seq.of(tp, c.get(o, "stack").et))
        c.assume(zx(c.plugged(o, "q0SIN")) == q0)
        c.assume(zx(c.plugged(o, "proj0SIN")) == bool(proj))
        th = c.sig(o, "inversionThresholdSIN", t)
        c.assume(and_(ge(n, 0), ge(th, 0)))
        # the tasks' outputs keep the value they have at the time of the control law once asked for it
        seen = {}
        def value(ex, s, tt, lv):
            k = (s.sid, tuple(str(zx(x)) for x in s.args))
            if tt is None:
                tt = seen.get(k)
                if tt is None:
                    return ex.sym(s.ty.a[0], s.sid + "@copy", s.args)
            seen[k] = tt
            return ex.rd(lib_dg.sig_loc(ex, s, tt))
        def again(ex, l, tt):
            value(ex, ex.rd(l), tt, l)
        for f in ("jacobianSOUT", "taskSOUT"):
            c.ex.sig_values[c.get(c.ex.deref(tp[0]), f).sid] = value
        c.ex.sig_values["recompute"] = again
        J0 = [c.sig(c.ex.deref(p), "jacobianSOUT", t) for p in tp]
        R = [c.sig(c.ex.deref(p), "taskSOUT", t) for p in tp]
        seen.clear()
        # with the columns of the joints the task may use (computeJacobianActivated, below)
        J = [c.matrix("J%d" % i, x.r, x.c) for i, x in enumerate(J0)]
        def activated(ex, so, a, e):
            g = stage(ex)
            p = ex.rd(a[0])
            ex.oblige("task %d: its own Jacobian" % (g + 1), ptr_eq(p, tp[g]), kind="post")
            at = seen.get((c.get(c.ex.deref(tp[g]), "jacobianSOUT").sid, (str(tp[g].ident),)))
            ex.oblige("task %d: its Jacobian at the time of the control law" % (g + 1), at is not None and eq(at, t), kind="post")
            return J[g]
        c.ex.contracts["computeJacobianActivated"] = activated
        c.ex.contracts["isFullPostureTask"] = lambda ex, so, a, e: full
        K = c.sig(o, "proj0SIN", t) if proj else None
        if proj:
            c.assume(zx(eq(K.r, n)) == (proj == "fits"))
        if proj == "fits":
            # a projector has no more columns than the robot has joints
            c.assume(le_(K.c, n))
        stage = lambda ex: ex.st.store.get(("stage", "ghost"), 0)
        D = []   # per task: its decomposition and its increment, whatever they are
        for i in range(ntasks):
            kk = z3.Int("k$modes")
            md = R[i].at(kk).get("mode")
            c.given(z3.ForAll([kk], zx(or_(eq(md, SINGLE), eq(md, DOUBLE)))))
            c.assume(and_(eq(J[i].r, R[i].n), eq(J[i].c, n)))
            D.append(dict(m=c.nat("values%d" % i), r=c.nat("rank%d" % i), inc=c.vec("increment%d" % i, n), acc=accepted[i] if i < len(accepted) else c.bool("accepted%d" % i)))
        # what the control law has to do: the state before each task (control, whether some direction was used, the basis of what is left)
        x0 = c.sig(o, "q0SIN", t) if q0 else None
        x, has, kr, kat = ((lambda i: x0.at(i, 0)) if q0 else (lambda i: Fraction(0))), proj == "fits", (K.c if proj == "fits" else n), (K.at if proj == "fits" else None)
        k, l, i, j = z3.Int("k$w"), z3.Int("l$w"), c.int("i"), c.int("j")
        run, moved = True, q0
        for a, d in enumerate(D):
            d.update(moved=moved, x=x, has=has, q=kr, K=kat, run=run)
            d["V"], d["s"] = c.matrix("V%d" % a, kr, kr if a + 1 < ntasks else d["m"]), c.vec("s%d" % a, d["m"])
            # the rank: the number of leading singular values above the threshold
            r = d["r"]
            c.assume(eq(d["m"], ite(ge(kr, R[a].n), R[a].n, kr)))
            c.assume(and_(le_(r, d["m"]), or_(eq(r, d["m"]), not_(lt(th, d["s"].at(r, 0))))))
            c.assume(z3.ForAll([k], zx(implies(rng(k, r), lt(th, d["s"].at(k, 0))))))
            ok = and_(run, d["acc"])
            x = (lambda x, ok, d: lambda i: ite(ok, add(x(i), d["inc"].at(i, 0)), x(i)))(x, ok, d)
            left = sub(kr, r)
            if kat is None:
                kat2 = (lambda d: lambda i, j: d["V"].at(i, add(d["r"], j)))(d)
            else:
                prod = (lambda kat, d: lambda i, j: c.sumf(lambda k: mul(kat(i, k), d["V"].at(k, add(d["r"], j))))(d["q"]))(kat, d)
                kat2 = (lambda kat, prod, has, d: lambda i, j: ite(has, prod(i, j), d["V"].at(i, add(d["r"], j))))(kat, prod, has, d)
            if kat is None:
                kat = kat2
            else:
                kat = (lambda kat, kat2, ok: lambda i, j: ite(ok, kat2(i, j), kat(i, j)))(kat, kat2, ok)
            kr = ite(ok, left, kr)
            has, moved = or_(has, ok), or_(moved, ok)
            run = and_(run, not_(and_(has, eq(kr, 0))))
        end = x

        def JK(a):
            d = D[a]
            if d["K"] is None:
                return J[a].at
            p = lambda i, j: c.sumf(lambda k: mul(J[a].at(i, k), d["K"](k, j)))(n)
            return lambda i, j: ite(d["has"], p(i, j), J[a].at(i, j))

        def compute(ex, so, a, e):
            g = stage(ex)
            d = D[g]
            X, fl = lib_eigen.M(ex, a[0]), simp(ex.rd(a[1]))
            ex.oblige("task %d: what is decomposed is its Jacobian along the directions left" % (g + 1), and_(eq(X.r, R[g].n), eq(X.c, d["q"]), implies(and_(rng(i, X.r), rng(j, X.c)), eq(X.at(i, j), JK(g)(i, j)))), kind="post")
            ex.oblige("task %d: with the part of the bases that is needed" % (g + 1), bool(fl & 12) and bool(fl & (48 if g + 1 == ntasks else 16)), kind="post")
            ex.st.store[("updated", "ghost")] = False
            return so
        c.ex.contracts["Eigen::JacobiSVD::compute"] = compute
        c.ex.contracts["Eigen::SVDBase::matrixV"] = lambda ex, o, a, e: D[stage(ex) - (1 if ex.st.store.get(("updated", "ghost")) else 0)]["V"]
        c.ex.contracts["Eigen::SVDBase::singularValues"] = lambda ex, o, a, e: D[stage(ex)]["s"]

        def increment(ex, so, a, e):
            """the contract of updateControl, as proved above"""
            g = stage(ex)
            d = D[g]
            mem = ex.deref(ex.rd(a[0]))
            rank, hk, kern, cur, lim = ex.rd(a[1]), ex.rd(a[2]), lib_eigen.M(ex, a[3]), ex.rd(a[4]), ex.rd(a[5])
            err = c.get(mem, "err")
            T = "task %d: " % (g + 1)
            ob = lambda nm, x: ex.oblige(T + nm, x, kind="post")
            ob("there is room for its increment", and_(ge(c.get(mem, "tmpTask").r, rank), ge(c.get(mem, "tmpVar").r, d["q"])))
            ob("its rank is the number of singular values above the threshold", eq(rank, d["r"]))
            ob("along the directions left", eq(zx(hk), zx(d["has"])))
            if d["K"] is not None:
                ob("its increment stays in the directions left", implies(hk, and_(eq(kern.r, n), eq(kern.c, d["q"]), implies(and_(rng(i, n), rng(j, d["q"])), eq(kern.at(i, j), d["K"](i, j))))))
            ob("from the control so far", and_(eq(cur.r, n), eq(cur.c, 1), implies(rng(i, n), eq(cur.at(i, 0), d["x"](i)))))
            v = lambda l: absv(R[g].at(l))["single"]
            rest = lambda l: sub(v(l), c.sumf(lambda k: mul(J[g].at(l, k), d["x"](k)))(n))
            ob("to what the control so far leaves of its reference", and_(eq(err.r, R[g].n), implies(rng(l, err.r), eq(err.at(l, 0), ite(d["moved"], rest(l), v(l))))))
            ob("up to the configured limit", eq(lim, c.get(o, "maxControlIncrementSquaredNorm")))
            ex.write(a[4], mat(n, 1, lambda i, j: ite(d["acc"], add(d["x"](i), d["inc"].at(i, 0)), d["x"](i))))
            ex.st.store[("stage", "ghost")] = g + 1
            ex.st.store[("updated", "ghost")] = True
            return d["acc"]
        c.ex.contracts["updateControl"] = increment

        def memory(ex, so, a, e):
            """the contract of getMemory, as proved below"""
            g = stage(ex)
            ex.oblige("task %d: its memory has its size" % (g + 1), and_(eq(ex.rd(a[1]), R[g].n), eq(ex.rd(a[2]), n)), kind="post")
            return c.addr(mems[g])
        mems = [c.obj(MEM, "memory%d" % i) for i in range(ntasks)]
        for g, m in enumerate(mems):
            c.assume(and_(eq(c.get(m, "tmpTask").r, R[g].n), eq(c.get(m, "tmpVar").r, n)))
        c.ex.contracts["getMemory"] = memory
        u = c.uninit(V, "control")
        return o, t, n, u, J, R, K, D, end, run

    def refusal(c, n, R, D, z0, pre):
        k = z3.Int("k$ref")
        bad = [z3.Exists([k], zx(and_(d["run"], rng(k, r.n), absv(r.at(k))["d"]))) for r, d in zip(R, D)]
        if z0 is not None:
            bad.append(zx(ne(z0.r, n)))
        c.throws_iff("refused exactly for an initial velocity of the wrong length or a double bound", z3.Or(bad), pre)

    NAMES = dict(fits="an initial projector", other="an initial projector of the wrong size")
    for nt, q0, proj, accd in [(nt, q0, proj, accd) for nt in (1, 2) for q0 in (False, True) for proj in (None, "fits", "other") for accd in itertools.product((True, False), repeat=nt - 1)] + \
            [(3, True, "fits", accd) for accd in itertools.product((True, False), repeat=2)]:
        @S.case("%d task%s%s, %s initial velocity, %s" % (nt, "s" * (nt > 1), "".join(" " + "NY"[a] for a in accd), "an" if q0 else "no", NAMES.get(proj, "no projector")), tu)
        def _(c, nt=nt, q0=q0, proj=proj, accd=accd):
            o, t, n, u, J, R, K, D, end, run = law(c, nt, q0, proj, accd)
            i = c.int("i")
            pre = c.snapshot()
            c.call("Sot::computeControlLaw", o, u, t)
            refusal(c, n, R, D, c.sig(o, "q0SIN", t) if q0 else None, pre)
            u1 = c.get(u)
            c.ensure("the control has the robot's size", and_(eq(u1.r, n), eq(u1.c, 1)))
            c.ensure("the initial velocity plus the increments that were accepted", implies(rng(i, n), eq(u1.at(i, 0), end(i))))

    for q0 in (False, True):
        @S.case("accelerated posture task, %s initial velocity" % ("an" if q0 else "no"), tu)
        def _(c, q0=q0):
            o, t, n, u, J, R, K, D, end, run = law(c, 1, q0, "fits", (), True)
            # what isFullPostureTask stands for
            c.assume(and_(c.get(o, "enablePostureTaskAcceleration"), ge(n, 6), eq(R[0].n, sub(n, 6))))
            pre = c.snapshot()
            c.call("Sot::computeControlLaw", o, u, t)
            refusal(c, n, R, D, c.sig(o, "q0SIN", t) if q0 else None, pre)
            i = c.int("i")
            u1, x = c.get(u), D[0]["x"]
            v = lambda l: absv(R[0].at(l))["single"]
            rest = (lambda l: sub(v(l), x(add(l, 6)))) if q0 else v
            along = lambda j: c.sumf(lambda l: mul(K.at(add(l, 6), j), rest(l)))(sub(n, 6))
            c.ensure("the control has the robot's size", and_(eq(u1.r, n), eq(u1.c, 1)))
            c.ensure("the joints go to the reference along the directions left", implies(rng(i, n), eq(u1.at(i, 0), add(x(i), c.sumf(lambda j: mul(K.at(i, j), along(j)))(K.c)))))

    @S.case("control selection", tu)
    def _(c):
        TK = "dynamicgraph::sot::Task"
        tp, ap = c.ptr(TK, "task"), c.ptr(TA, "abstract")
        t = c.int("time")
        none = c.bool("plain")
        c.assume(ne(tp.ident, 0))
        Jm = c.uninit(MX, "mem")
        J = c.ex.sym(ptype(MX), c.get(c.ex.deref(ap), "jacobianSOUT").sid + "@copy", c.get(c.ex.deref(ap), "jacobianSOUT").args)
        sel = flags(c, c.sig(c.ex.deref(tp), "controlSelectionSIN", t))[0]
        pre = c.snapshot()
        r = lib_eigen.M(c.ex, c.call("computeJacobianActivated", None, ap, Ptr("alt", lv=(none, NULL, tp)), Jm, t))
        c.no_throw("never throws", pre)
        i, j = c.int("i"), c.int("j")
        c.ensure("as large as the Jacobian", and_(eq(r.r, J.r), eq(r.c, J.c)))
        c.ensure("the columns of the selected joints, and nothing in the others", implies(and_(rng(i, J.r), rng(j, J.c)), eq(r.at(i, j), ite(or_(none, sel(j)), J.at(i, j), Fraction(0)))))

    def flags(c, fl):
        """the contracts of Flags (proved in C05): the flag of a joint, any, complement"""
        value = lambda f: lambda i: ite(lt(i, f.get("flags").n), f.get("flags").at(i), f.get("outOfRangeFlag"))
        some, every = c.bool("some"), c.bool("every")
        k = z3.Int("k$flag")
        c.assume(z3.ForAll([k], zx(implies(and_(not_(some), ge(k, 0)), not_(value(fl)(k))))))
        c.assume(z3.ForAll([k], zx(implies(and_(every, ge(k, 0)), value(fl)(k)))))
        comp = lambda f: f.with_("flags", Seq(f.get("flags").n, lambda i: not_(f.get("flags").at(i)), f.get("flags").et)).with_("outOfRangeFlag", not_(f.get("outOfRangeFlag")))
        cfl = comp(fl)
        def conv(ex, o, a, e):
            f = ex.rd(o if o is not None else a[0])
            for x, v in ((fl, some), (cfl, not_(every))):
                if same(x.get("outOfRangeFlag"), f.get("outOfRangeFlag")) and same(x.get("flags").at(k), f.get("flags").at(k)):
                    return v
            raise Unsupported("flags")
        c.ex.contracts["dynamicgraph::sot::Flags::operator_conv"] = conv
        c.ex.contracts["dynamicgraph::sot::Flags::operator!"] = lambda ex, o, a, e: comp(ex.rd(o if o is not None else a[0]))
        c.ex.contracts["dynamicgraph::sot::Flags::operator()"] = lambda ex, o, a, e: value(ex.rd(o if o is not None else a[0]))(ex.rd(a[-1]))
        return value(fl), some, every

    @S.case("posture task", tu)
    def _(c):
        TK = "dynamicgraph::sot::Task"
        FP = "dynamicgraph::sot::FeaturePosture"
        tp = c.ptr(TK, "task")
        t, n, none = c.int("time"), c.nat("joints"), c.bool("null")
        c.assume(ne(tp.ident, 0))
        sel, some, every = flags(c, c.sig(c.ex.deref(tp), "controlSelectionSIN", t))
        fl = c.get(c.ex.deref(tp), "featureList")
        first = fl.at(0)
        down = c.ex.uf("dyncast<%s>" % FP, (first.ident,), "int")
        dim = c.sig(c.ex.deref(Ptr("opq", ident=down, cls=ptype(FP))), "dimensionSOUT", t)
        pre = c.snapshot()
        r = c.call("isFullPostureTask", None, Ptr("alt", lv=(none, NULL, tp)), n, t)
        c.no_throw("never throws", pre)
        c.ensure("a task on every joint, of one posture feature covering all but the free flyer", eq(zx(r), zx(and_(not_(none), eq(fl.n, 1), every, ne(down, 0), eq(dim, sub(n, 6))))))

    @S.case("memory of a task", tu)
    def _(c):
        tp = c.ptr(TA, "task")
        d, n = c.nat("dim"), c.nat("joints")
        # a downcast gives the same object, or none
        was = c.get(c.ex.deref(tp), "memoryInternal")
        down = c.ex.uf("dyncast<%s>" % MEM, (was.ident,), "int")
        c.assume(or_(eq(down, 0), eq(down, was.ident)))
        pre = c.snapshot()
        r = c.call("getMemory", None, c.ex.deref(tp), d, n)
        c.no_throw("never throws", pre)
        m = c.ex.deref(r)
        c.ensure("belongs to the task", c.same_ptr(c.get(c.ex.deref(tp), "memoryInternal"), r))
        c.ensure("has room for the task and the robot", and_(eq(c.get(m, "tmpTask").r, d), eq(c.get(m, "tmpVar").r, n)))


le_ = lambda a, b: ge(b, a)

