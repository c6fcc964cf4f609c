"""Contract cases: symbolic pre-state, call of the real function, postconditions; run in parallel worker processes."""
import multiprocessing
import os
import time
import traceback
import z3
from fractions import Fraction
from .values import *
from .values import _const
from .ctypes_ import ptype, T, strip_cv, is_ref
from .astload import TU, AstError, REPO
from .interp import Ex, St, PathEnd
from . import interp
from . import lib_std, lib_eigen, lib_dg, lib_pin   # register the library contracts
from .loops import SUM, LASTW, REC, shape
from .prover import Prover, has_quant
from . import pyfront
from .pyfront import PyMod, PyRaise, PyList, PyDict, PyObj, Nd, Act, Opt, Tag, Seg, items, value_eq, segs_eq

R = Fraction


class Undecided(Exception):
    pass


def forall(ks, body, lo=None, hi=None):
    return z3.ForAll(ks, zx(body))


def total(*xs):
    r = xs[0]
    for x in xs[1:]:
        r = add(r, x)
    return r


def rng(k, n, lo=0):
    return and_(ge(k, lo), lt(k, n))


class Case:
    def __init__(self, name, tu, tier):
        self.name, self.tu, self.tier = name, tu, tier
        self.ex = Ex(tu)
        self.ex.record = True
        self.extra = []
        self.normal = True
        self.thrown = []
        self.notes = []
        self.obl_from = 0
        self.ex.spec_fn = name
        self.safety = True
        self.ids = 0

    # -------- state
    def v(self, t, name, *args):
        return self.ex.sym(t if isinstance(t, T) else ptype(t), name, args)

    def int(self, name):
        return z3.Int(name)

    def nat(self, name):
        x = z3.Int(name)
        self.assume(x >= 0)
        return x

    def real(self, name):
        return z3.Real(name)

    def bool(self, name):
        return z3.Bool(name)

    def vec(self, name, n):
        return mat(n, 1, lambda i, j: self.ex.uf(name, (i,), "real"))

    def matrix(self, name, r, c):
        return mat(r, c, lambda i, j: self.ex.uf(name, (i, j), "real"))

    def rotation(self, m):
        """assume that the 3x3 matrix m is a rotation (orthonormal rows and columns, right-handed)"""
        R = m.at
        T = [(1, 2), (2, 0), (0, 1)]
        for i in range(3):
            for j in range(3):
                self.assume(eq(total(*[mul(R(i, k), R(j, k)) for k in range(3)]), 1 if i == j else 0))
                self.assume(eq(total(*[mul(R(k, i), R(k, j)) for k in range(3)]), 1 if i == j else 0))
                (a, b), (p, q) = T[i], T[j]
                self.assume(eq(R(i, j), sub(mul(R(a, p), R(b, q)), mul(R(a, q), R(b, p)))))
        self.ex.rotations = dict(getattr(self.ex, "rotations", {}))
        self.ex.rotations[lib_eigen.rows_key(m)] = [R(i, j) for i in range(3) for j in range(3)]

    def rvec(self, name, n):
        """row vector"""
        return mat(1, n, lambda i, j: self.ex.uf(name, (j,), "real"))

    def put(self, val, name=None):
        """a location holding val"""
        root = ("v", name or self.ex.new("in"))
        self.ex.st.store[root] = val
        return LV(root)

    def obj(self, cls, name="this", **fields):
        st = self.ex.symrec(self.cls(cls), name)
        for f, v in fields.items():
            st = st.with_(f, v)
        return self.put(st, name)

    def cls(self, c):
        if c in self.tu.recs:
            return c
        for k in self.tu.recs:
            if k == "dynamicgraph::sot::" + c or k.endswith("::" + c):
                return k
        raise AstError("class %s not found in the current source" % c)

    def get(self, lv, path=""):
        v = self.ex.rd(lv)
        for p in [x for x in path.split(".") if x]:
            v = self.ex.rd(v.get(p))
        return v

    def set(self, lv, path, val):
        l = lv
        for p in path.split("."):
            l = l.sub("f", p)
        self.ex.write(l, val)

    def sig(self, lv, field, t):
        """value of an input signal of the object at time t"""
        return lib_dg.sig_value(self.ex, lib_dg.sigv(self.ex, self.get(lv, field)), t)

    def sigof(self, s, t):
        """value at time t of the signal s (value, location or pointer)"""
        return lib_dg.sig_value(self.ex, lib_dg.sigv(self.ex, s), t)

    def plugged(self, lv, field):
        return lib_dg.plugged(self.ex, lib_dg.sigv(self.ex, self.get(lv, field)))

    def deref(self, p):
        """value behind a pointer"""
        return self.ex.rd(self.ex.deref(p))

    def ptr(self, cls, name):
        """an arbitrary pointer to an object of class cls"""
        return Ptr("opq", ident=z3.Int(name), cls=ptype(cls) if isinstance(cls, str) else cls)

    def addr(self, lv):
        """address of a location"""
        return interp.addr_of(lv)

    def same_ptr(self, a, b):
        return ptr_eq(a, b)

    def glob(self, qn):
        """location of a static data member or namespace variable"""
        return self.ex.global_lv(qn)

    def glob_init(self, qn):
        """the value the initialiser of a namespace variable gives it"""
        from .interp import Frame
        g = self.ex.tu.globals[qn]
        fr = self.ex.frames
        try:
            self.ex.frames = [Frame({"qn": "global " + qn}, None, {})]
            return self.ex.rd(self.ex.ev(g["init"]))
        finally:
            self.ex.frames = fr

    def uninit(self, t, name):
        """an output parameter of C++ type t, with arbitrary previous content"""
        return self.put(self.v(t, name), name)

    def snapshot(self):
        return self.ex.st.copy()

    def at(self, st, lv, path=""):
        save, self.ex.st = self.ex.st, st
        try:
            return self.get(lv, path)
        finally:
            self.ex.st = save

    def assume(self, c):
        self.ex.st = self.ex.st.assume(zx(c) if c is not True else True)

    def given(self, c):
        """a global hypothesis (typing of symbols)"""
        self.ex.fact(zx(c))

    # -------- calls
    def fn(self, qn, n=None, pred=None, cls=None):
        q = qn
        if q not in self.tu.by_qn and "dynamicgraph::sot::" + q in self.tu.by_qn:
            q = "dynamicgraph::sot::" + q
        elif q not in self.tu.by_qn and "dynamicgraph::" + q in self.tu.by_qn:
            q = "dynamicgraph::" + q
        return self.tu.fn(q, n, pred, cls)

    def call(self, qn, this=None, *args, n=None, pred=None, cls=None, quiet=False):
        f = self.fn(qn, n if n is not None else len(args), pred, cls) if isinstance(qn, str) else qn
        rec = self.ex.record
        self.ex.record = rec and self.safety and not quiet
        try:
            if f.get("cls") and not f.get("static") and this is None:
                raise Unsupported("this needed for " + f["qn"])
            v, st, thr = self.ex.run(f, this, list(args))
        finally:
            self.ex.record = rec
        self.thrown = list(thr)
        self.normal = st is not None
        if st is not None:
            self.ex.st = st
        self.ret = v
        return v

    def construct(self, cls, *args, n=None, pred=None, name=None):
        c = self.cls(cls)
        short = c.split("<")[0].split("::")[-1]
        qn = c.split("<")[0] + "::ctor"
        fs = [f for f in self.tu.by_qn.get(qn, []) if strip_cv(f.get("cls", "")) == c and not f.get("implicit_copy")]
        fs = [f for f in fs if len(f["params"]) >= len(args) and (pred is None or pred(f))]
        if n is not None:
            fs = [f for f in fs if len(f["params"]) == n]
        fs = [f for f in fs if not (len(f["params"]) == 1 and strip_cv(f["params"][0]["t"].replace("&", "")) == c)]
        if not fs:
            raise AstError("no constructor of %s" % cls)
        lv = self.put(Struct(c, {"commandMap": Opaque("commands")}, self.ex.symrec(c, (name or "new") + "_uninit").mk), name)
        v, st, thr = self.ex.run(fs[0], lv, list(args))
        self.thrown = list(thr)
        self.normal = st is not None
        if st is not None:
            self.ex.st = st
        return lv

    def construct_with(self, f, lv, *args):
        v, st, thr = self.ex.run(f, lv, list(args))
        self.thrown = list(thr)
        self.normal = st is not None
        if st is not None:
            self.ex.st = st
        return lv

    # -------- Python sources
    def pyname(self, name):
        v = self.py.glob.v
        for p in name.split(".")[:1]:
            if p not in v:
                raise AstError("%s not found in %s" % (name, self.tu.path))
        o = v[name.split(".")[0]]
        for p in name.split(".")[1:]:
            o = self.py.getattr(o, p)
        return o

    def pycall(self, name, *args, **kw):
        f = self.pyname(name) if isinstance(name, str) else name
        return self.py.call(f, list(args), kw)

    # -------- postconditions
    def ensure(self, name, goal, kind="post"):
        if not self.normal:
            raise Undecided("%s: the call never completes normally" % name)
        self.ex.oblige(name, goal, kind=kind)

    def reach(self, name):
        """the current point must be reachable (vacuity guard)"""
        self.ex.oblige("reachable: " + name, z3.BoolVal(False), kind="reach")

    def eqv(self, a, b):
        ex = self.ex
        a, b = ex.rd(a), ex.rd(b)
        if a is b:
            return True
        if is_scalar(a) and is_scalar(b):
            return eq(a, b)
        if isinstance(a, Mat) and isinstance(b, Mat):
            cs = [eq(a.r, b.r), eq(a.c, b.c)]
            if any(c is False for c in cs):
                return False
            r = a.r if isinstance(a.r, int) else b.r
            c = a.c if isinstance(a.c, int) else b.c
            if isinstance(r, int) and isinstance(c, int) and r * c <= 64:
                for i in range(r):
                    for j in range(c):
                        cs.append(eq(a.at(i, j), b.at(i, j)))
            else:
                i, j = self.q("i"), self.q("j")
                if isinstance(c, int) and c == 1:
                    cs.append(z3.ForAll([i], zx(implies(rng(i, r), eq(a.at(i, 0), b.at(i, 0))))))
                elif isinstance(r, int) and r == 1:
                    cs.append(z3.ForAll([j], zx(implies(rng(j, c), eq(a.at(0, j), b.at(0, j))))))
                else:
                    cs.append(z3.ForAll([i, j], zx(implies(and_(rng(i, r), rng(j, c)), eq(a.at(i, j), b.at(i, j))))))
            return and_(*cs)
        if isinstance(a, Seq) and isinstance(b, Seq):
            n = a.n if isinstance(a.n, int) else b.n
            if isinstance(n, int) and n <= 32:
                if eq(a.n, b.n) is False:
                    return False
                return and_(eq(a.n, b.n), *[self.eqv(a.at(i), b.at(i)) for i in range(n)])
            i = self.q("i")
            return and_(eq(a.n, b.n), z3.ForAll([i], zx(implies(rng(i, n), self.eqv(a.at(i), b.at(i))))))
        if isinstance(a, Struct) and isinstance(b, Struct):
            return and_(*[self.eqv(a.get(f), b.get(f)) for f in sorted(set(a.fields) | set(b.fields))])
        if isinstance(a, (Ptr, int)) and isinstance(b, (Ptr, int)):
            return ptr_eq(a, b)
        if isinstance(a, MapV) and isinstance(b, MapV):
            q = z3.String("q%d" % self.uid()) if (a.kt or b.kt) is not None and (a.kt or b.kt).k == "str" else self.q("q")
            h = eq(a.has(q), b.has(q))
            if (a.vt or b.vt) is None:
                return z3.ForAll([q], zx(h))
            return z3.ForAll([q], zx(and_(h, implies(a.has(q), self.eqv(a.get(q), b.get(q))))))
        if isinstance(a, SigV) and isinstance(b, SigV):
            if a.over is not None or b.over is not None:
                if a.over is None or b.over is None:
                    return False
                return self.eqv(a.over, b.over)
            return a.sid == b.sid
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return True
        if isinstance(a, Stream) and isinstance(b, Stream):
            if a.text is None or b.text is None:
                return True
            return eq(a.text, b.text)
        raise Unsupported("comparison of %r and %r" % (a, b))

    def sumf(self, f, lo=0):
        """the function n -> sum of f(k), lo <= k < n"""
        k = self.q("k")
        b = f(k)
        return lambda n: SUM(self.ex, lo, n, k, b)

    def uid(self):
        self.ids += 1
        return self.ids

    def q(self, n="i"):
        return z3.Int("%s$%d" % (n, self.uid()))

    def equal(self, name, a, b):
        self.ensure(name, self.eqv(a, b))

    def frame(self, name, lv, pre, changed=()):
        """every field of the object except those listed keeps its value (pre: state before)"""
        if not self.normal:
            raise Undecided(name)
        a = self.at(pre, lv)
        b = self.get(lv)
        cs = []
        for f in sorted(set(a.fields) | set(b.fields)):
            if f in changed:
                continue
            try:
                cs.append(self.eqv(self.ex.rd(a.get(f)), self.ex.rd(b.get(f))))
            except Unsupported:
                continue
        self.ensure(name, and_(*cs))

    def throw_cond(self, cls=None, base=None):
        n = len(base.pc)
        out = []
        for st, val in self.thrown:
            if cls is None or self.ex.exc_matches(val, cls):
                out.append(and_(*st.pc[n:]))
        return or_(*out)

    def throws_iff(self, name, cond, pre, cls=None):
        """the call throws (an exception of class cls) exactly when cond holds in the pre state"""
        save, sn = self.ex.st, self.normal
        self.ex.st, self.normal = pre, True
        tc = self.throw_cond(cls, pre)
        self.ensure(name, eq(zx(tc), zx(cond)))
        if cls is not None:
            self.ensure(name + " (no other exception)", implies(self.throw_cond(None, pre), tc))
        self.ex.st, self.normal = save, sn

    def no_throw(self, name, pre):
        self.throws_iff(name, False, pre)

    def on_throw(self, name, fn):
        """postcondition of every exceptional exit: fn(state, value) -> goal"""
        save, sn = self.ex.st, self.normal
        for st, val in self.thrown:
            self.ex.st, self.normal = st, True
            self.ensure(name, fn(st, val))
        self.ex.st, self.normal = save, sn

    def in_state(self, st):
        self.ex.st = st
        self.normal = True


def run_case(name, tu, fn, tier, ms=None):
    t0 = time.time()
    out = {"case": name, "obls": [], "error": None, "kind": "proof"}
    c = Case(name, tu, tier)
    try:
        if isinstance(tu, PyMod):
            pyfront.run_paths(c, tu, fn)
        else:
            fn(c)
    except (Unsupported, Unmergeable, AstError, Undecided) as e:
        out["error"] = "%s: %s" % (type(e).__name__, e)
        if os.environ.get("VERIF_TRACE"):
            traceback.print_exc()
    except (z3.Z3Exception, KeyError, TypeError, AttributeError, IndexError, RecursionError, ValueError, AssertionError) as e:
        out["error"] = "internal %s: %s" % (type(e).__name__, str(e)[:300])
        if os.environ.get("VERIF_TRACE"):
            traceback.print_exc()
    ex = c.ex
    p = Prover(ex, c.extra)
    nreach = 0
    for ob in ex.obls:
        if time.time() - t0 > (400 if tier == "quick" else 1500):
            out["obls"].append({"name": ob.name, "fn": ob.fn, "line": ob.line, "kind": ob.kind, "result": "unknown",
                                "backend": "time limit", "time": 0})
            continue
        t1 = time.time()
        if ob.kind == "reach":
            # vacuity guard: the path condition must not be contradictory
            r, _ = p.z3(p.relevant([zx(x) for x in ob.pc if x is not True]) + [zx(x) for x in ob.pc if x is not True], 4000)
            res, b, m, tn = ("vacuous" if r == "unsat" else "proved"), "z3 (%s)" % r, None, False
            nreach += 1
        else:
            try:
                res, m, b, tn = p.prove(ob.pc, ob.goal, ms)
            except z3.Z3Exception as e:
                res, m, b, tn = "unknown", None, "z3 error " + str(e)[:100], True
            if ob.kind == "pyexc" and res == "refuted":
                res = "unknown"
        d = {"name": ob.name, "fn": ob.fn, "line": ob.line, "kind": ob.kind, "result": res, "backend": b,
             "time": round(time.time() - t1, 3)}
        if res not in ("proved",):
            d["model"] = str(m)[:1500] if m is not None else None
            d["goal"] = str(z3.simplify(ob.goal))[:600]
        out["obls"].append(d)
    # vacuity guard of the whole case
    if not out["error"] and ex.obls:
        for i in getattr(c, "path_ends", [len(ex.obls)]):
            if not i:
                continue
            pcs = [zx(x) for x in ex.obls[i - 1].pc if x is not True]
            r, _ = p.z3(p.relevant(pcs) + pcs, 3000)
            if r != "unsat":
                break
        out["vacuity"] = r
        if r == "unsat":
            out["error"] = "vacuous: the contract's assumptions are contradictory at its last obligation"
    out["fns"] = {k: [v[0], v[1]] for k, v in ex.used_fns.items()}
    out["lib"] = sorted(ex.lib_used)
    out["assumed"] = sorted(ex.assumed) + c.notes
    out["bounded"] = [list(x) for x in ex.bounded]
    out["time"] = round(time.time() - t0, 2)
    out["solver"] = round(p.time, 2)
    return out


class Session:
    """The contract cases of one property."""

    def __init__(self, tier="quick"):
        self.tier = tier
        self.cases = []
        self.cache = {}
        self.load_errors = []

    def tu(self, *paths, text=None):
        key = (paths, text)
        if key not in self.cache:
            t = TU()
            try:
                for p in paths:
                    t.load(os.path.join(REPO, p))
                if text is not None:
                    t.load(text=text, name="instantiation unit")
            except (AstError, OSError, Exception) as e:
                self.load_errors.append("%s: %s" % (",".join(paths) or "instantiation", str(e)[-600:]))
                t = None
            self.cache[key] = t
        return self.cache[key]

    def wiring(self, tu, cls, wires, args=None, n=None, prep=None, label=None):
        """the constructor binds each output signal to the function that computes it, on the object itself"""
        @self.case("output signals of " + (label or cls), tu)
        def _(c):
            full = c.cls(cls)
            c.ex.contracts["dynamicgraph::sot::PoolStorage::getInstance"] = lambda ex, o_, a, e: c.ptr("dynamicgraph::sot::PoolStorage", "pool.instance")
            for r in ("Feature", "Task"):     # property C23
                c.ex.contracts["dynamicgraph::sot::PoolStorage::register" + r] = lambda ex, o_, a, e: None
            if prep:
                prep(c)
            o = c.construct(cls, *(args(c) if args else [z3.String("name")]), n=n)
            names = {}
            for f, g in wires.items():
                names[f] = g if "::" in g else full.split("<")[0] + "::" + g
            for f, want in names.items():
                want = want if want.startswith("dynamicgraph::") else "dynamicgraph::sot::" + want
                b = getattr(c.get(o, f), "deps", None)
                if not isinstance(b, Fun) or b.fn is None or len(b.bound) != 1:
                    raise Unsupported("the function of %s is given in another form" % f)
                fq = b.fn["fn"]
                if fq != want and fq not in names.values() and "dynamicgraph::sot::" + fq not in names.values():
                    raise Unsupported("%s computes %s" % (fq, f))
                c.ensure("%s is computed by %s of this object" % (f, want.split("::")[-1]), and_(fq == want, c.same_ptr(b.bound[0], c.addr(o))))

    def py(self, path):
        key = ("py", path)
        if key not in self.cache:
            try:
                self.cache[key] = PyMod(path)
            except AstError as e:
                self.load_errors.append(str(e))
                self.cache[key] = None
        return self.cache[key]

    def case(self, name, tu, only=None):
        def d(f):
            self.cases.append((name, tu, f))
            return f
        return d

    def run(self, jobs=8, limit=600, select=None):
        todo = [(n, t, f) for n, t, f in self.cases if select is None or select in n]
        res = []
        ctx = multiprocessing.get_context("fork")
        running = []
        t0 = time.time()

        def work(n, t, f, conn):
            try:
                conn.send(run_case(n, t, f, self.tier))
            except BaseException as e:
                conn.send({"case": n, "obls": [], "error": "internal " + repr(e)[:300], "fns": {}, "lib": [], "assumed": [],
                           "bounded": [], "time": 0, "solver": 0})
            conn.close()
        while todo or running:
            while todo and len(running) < jobs:
                n, t, f = todo.pop(0)
                if t is None:
                    res.append({"case": n, "obls": [], "error": "source not readable by the front end", "fns": {}, "lib": [],
                                "assumed": [], "bounded": [], "time": 0, "solver": 0})
                    continue
                a, b = ctx.Pipe(False)
                pr = ctx.Process(target=work, args=(n, t, f, b))
                pr.start()
                b.close()
                running.append((pr, a, n, time.time()))
            still = []
            for pr, a, n, ts in running:
                if a.poll(0.02):
                    try:
                        res.append(a.recv())
                    except EOFError:
                        res.append({"case": n, "obls": [], "error": "worker ended", "fns": {}, "lib": [], "assumed": [],
                                    "bounded": [], "time": 0, "solver": 0})
                    pr.join()
                elif time.time() - ts > limit or not pr.is_alive() and not a.poll(0.1):
                    pr.terminate()
                    pr.join()
                    res.append({"case": n, "obls": [], "error": "time limit", "fns": {}, "lib": [], "assumed": [], "bounded": [],
                                "time": limit, "solver": 0})
                else:
                    still.append((pr, a, n, ts))
            running = still
        res.sort(key=lambda r: [n for n, _, _ in self.cases].index(r["case"]))
        return res
