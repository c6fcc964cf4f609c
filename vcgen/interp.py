"""Symbolic executor over the clang AST: generates, function by function, the verification conditions of the contracts.

Statements are executed on an immutable-value store under a path condition; branches are merged back (if-then-else on the
stored values), so one normal outcome per function remains.  Every loop whose trip count is not a literal goes through
loops.py (an inductive closed form that is itself re-verified on the real body)."""
import re
from fractions import Fraction
import z3
from .values import *
from .values import _const
from . import values as V
from .ctypes_ import ptype, strip_cv, is_ref, T

FIXED_UNROLL = 130


class PathEnd(Exception):
    """the current path never completes normally (it threw)"""


class St:
    __slots__ = ("store", "pc")

    def __init__(self, store=None, pc=()):
        self.store = dict(store or {})
        self.pc = tuple(pc)

    def copy(self):
        return St(self.store, self.pc)

    def assume(self, c):
        if c is True:
            return self
        return St(self.store, self.pc + (c,))


class Outs:
    __slots__ = ("n", "b", "c", "r")

    def __init__(self, n=None):
        self.n, self.b, self.c, self.r = n, [], [], []


class Obl:
    __slots__ = ("name", "pc", "goal", "line", "kind", "fn", "result", "model", "taint", "time", "backend", "hints")

    def __init__(self, name, pc, goal, line, kind, fn):
        self.name, self.pc, self.goal, self.line, self.kind, self.fn = name, pc, goal, line, kind, fn
        self.result = None
        self.model = None
        self.taint = False
        self.time = 0
        self.backend = None
        self.hints = ()


LIB = {}
LIBPAT = []


def lib(*names):
    def d(f):
        for n in names:
            LIB[n] = f
        return f
    return d


class Frame:
    __slots__ = ("fn", "this", "env", "ret_ref")

    def __init__(self, fn, this, env, ret_ref=False):
        self.fn, self.this, self.env, self.ret_ref = fn, this, env, ret_ref


class Ex:
    def __init__(self, tu, prover=None):
        self.tu = tu
        self.st = St()
        self.facts = []          # global assumptions (symbol typing, library contracts), each z3 bool
        self.obls = []
        self.record = True       # record safety obligations
        self.frames = []
        self.thr = []
        self.uid = 0
        self.ufs = {}
        self.fcache = {}
        self.contracts = {}      # qn -> python summary (ex, this, args) used instead of the body
        self.loop_hints = {}
        self.used_fns = {}       # functions whose body was executed: qn -> (file, line)
        self.lib_used = set()
        self.assumed = set()
        self.sums = {}           # SUM definitions: name -> Sum object
        self.approx = False
        self.enums = set()
        self.fact_seen = set()
        self.spec_fn = None
        self.depth = 0
        self.dyn = {}            # dynamic class of lazily created objects
        self.unroll_bound = 0
        self.bounded = []        # (where, bound) labels
        self.sig_values = {}
        self.sizes = set()    # symbols that are never negative (typing)
        self.named = []       # head values of enclosing generic iterations that go by a name
        self.writes_opq = False
        self.ctx = []            # iteration variables of the enclosing symbolic loops
        self.keep = []

    # ------------------------------------------------------------------ helpers
    def new(self, p="t"):
        self.uid += 1
        return "%s!%d" % (p, self.uid)

    def fresh(self, sort, name="v"):
        return self.uf(self.new(name), tuple(self.ctx), sort)

    def uf(self, name, args, sort):
        args = [zx(a) if not is_sym(a) else a for a in args]
        rs = {"int": z3.IntSort(), "real": z3.RealSort(), "bool": z3.BoolSort(), "str": z3.StringSort()}.get(sort, sort)
        if not args:
            return z3.Const(name, rs)
        sig = tuple(a.sort().name() for a in args)
        key = (name, sig, rs.name())
        f = self.ufs.get(key)
        if f is None:
            f = z3.Function(name, *([a.sort() for a in args] + [rs]))
            self.ufs[key] = f
        return f(*args)

    def fact(self, f):
        if f is True:
            return
        f = zx(f)
        g = f
        for nm in reversed(self.named):
            if nm:
                g = z3.substitute(g, *[(h, zx(v)) for h, v in nm])
        self._fact(f)
        if not g.eq(f):
            self._fact(g)

    def _fact(self, f):
        ks = [k for k in self.ctx if is_sym(k) and k.num_args() == 0 and k.decl().name().startswith("k") and "@" in k.decl().name()]
        if ks:
            from .loops import mentions
            ks = [k for k in ks if mentions(f, {k.decl().name()})]
            if ks:
                f = z3.ForAll(ks, f)
        i = f.get_id()
        if i in self.fact_seen:
            return
        self.fact_seen.add(i)
        self.keep.append(f)
        self.facts.append(f)

    def nonneg(self, name, args, v):
        """typing fact for an unsigned / size symbol, for every argument tuple"""
        self.sizes.add(name)
        if not args:
            self.fact(v >= 0)
            return
        xs = [z3.Const("a%d!%s" % (i, name), zx(a).sort()) for i, a in enumerate(args)]
        f = v.decl()(*xs)
        self.fact(z3.ForAll(xs, f >= 0, patterns=[f]))
        if not any(is_sym(a) for a in args):
            self.fact(v >= 0)

    def sym(self, t, name, args=()):
        """The symbolic value of C++ type t named name(args)."""
        if isinstance(t, str):
            t = ptype(t)
        args = tuple(args)
        k = t.k
        if k == "int":
            return self.uf(name, args, "int")
        if k == "uint":
            v = self.uf(name, args, "int")
            self.nonneg(name, args, v)
            return v
        if k == "real":
            return self.uf(name, args, "real")
        if k == "bool":
            return self.uf(name, args, "bool")
        if k in ("str", "cstr"):
            return self.uf(name, args, "str")
        if k in ("mat", "mati"):
            srt = "real" if k == "mat" else "int"
            r, c = t.a
            if r < 0:
                r = self.uf(name + ".rows", args, "int")
                self.nonneg(name + ".rows", args, r)
            if c < 0:
                c = self.uf(name + ".cols", args, "int")
                self.nonneg(name + ".cols", args, c)
            if c == 1:
                return mat(r, c, lambda i, j: self.uf(name, args + (i,), srt))
            return mat(r, c, lambda i, j: self.uf(name, args + (i, j), srt), alg=None)
        if k == "xform":
            return mat(4, 4, lambda i, j: Fraction(int(j == 3)) if i == 3 else self.uf(name, args + (i, j), "real"))
        if k == "quat":
            m = mat(4, 1, lambda i, j: self.uf(name, args + (i,), "real"))
            return m
        if k == "aa":
            return Struct("Eigen::AngleAxis", {"angle": self.uf(name + ".angle", args, "real"),
                                               "axis": mat(3, 1, lambda i, j: self.uf(name + ".axis", args + (i,), "real"))})
        if k == "seq":
            n = self.uf(name + ".size", args, "int")
            self.nonneg(name + ".size", args, n)
            et = t.a[0]
            return Seq(n, lambda i: self.sym(et, name, args + (i,)), et)
        if k == "cbuf":
            return Struct("cbuf", {"cap": self.sym(T("uint"), name + ".cap", args),
                                   "data": self.sym(T("seq", t.a[0]), name, args)})
        if k == "arr":
            et, n = t.a
            return Seq(n, lambda i: self.sym(et, name, args + (i,)), et)
        if k in ("map", "set"):
            kt = t.a[0]
            vt = t.a[1] if k == "map" else None
            sz = self.sym(T("uint"), name + ".size", args)
            return MapV(lambda q: self.uf(name + ".has", args + (self.keyof(q),), "bool"),
                        (lambda q: self.sym(vt, name, args + (self.keyof(q),))) if vt is not None else (lambda q: q),
                        kt, vt, sz, order=(name, args))
        if k == "pair":
            return Struct("std::pair", {"first": self.sym(t.a[0], name + ".first", args),
                                        "second": self.sym(t.a[1], name + ".second", args)})
        if k == "ptr":
            return Ptr("opq", ident=self.uf(name, args, "int"), cls=t.a[0])
        if k == "sig":
            return SigV(t, name, args)
        if k == "rec":
            if t.s not in self.tu.recs:
                if t.s.startswith("dynamicgraph::Logger") or "Mutex" in t.s or "mutex" in t.s:
                    return Opaque(t.s)
                if self.looks_enum(t.s):
                    return self.uf(name, args, "int")
                return Struct(t.s, {}, lambda f: None)
            return self.symrec(t.s, name, args)
        if k == "stream":
            return Stream(None)
        return Opaque(name)

    def looks_enum(self, s):
        return s not in self.tu.recs and not s.startswith("dynamicgraph::Entity") and not s.startswith("Eigen") \
            and not s.startswith("dynamicgraph::Signal") and not s.startswith("dynamicgraph::command")

    def symrec(self, cls, name, args=()):
        def mk(f):
            ft = self.tu.field_type(cls, f)
            if ft is None:
                if f == "name":
                    return self.uf(name + ".name", args, "str")
                return None
            return self.sym(ptype(ft), name + "." + f, args)
        return Struct(cls, {}, mk)

    def keyof(self, q):
        if isinstance(q, Ptr):
            if q.kind == "null":
                return 0
            if q.kind == "opq":
                return q.ident
            raise Unsupported("pointer key")
        return q

    # ------------------------------------------------------------------ logic
    def hyps(self, pc=None):
        return [zx(x) for x in (self.st.pc if pc is None else pc) if x is not True]

    def _quick(self, c, pc):
        """is pc /\\ c satisfiable?  'unsat' | 'sat' | 'unknown' with a short time limit"""
        key = (frozenset(zx(x).get_id() for x in pc if x is not True), zx(c).get_id(), len(self.facts))
        if key in self.fcache:
            return self.fcache[key][0]
        s = z3.Solver()
        s.set("timeout", 150)
        for f in self.facts:
            if not z3.is_quantifier(f):
                s.add(f)
        for x in pc:
            if x is not True:
                s.add(zx(x))
        s.add(zx(c))
        r = str(s.check())
        self.fcache[key] = (r, pc, c)
        return r

    def known(self, c, pc=None):
        if c is True or c is False:
            return c
        c = simp(c)
        if isinstance(c, bool):
            return c
        pc = self.st.pc if pc is None else pc
        return self._quick(not_(c), pc) == "unsat"

    def feasible(self, c, pc=None):
        if c is True:
            return True
        if c is False:
            return False
        return self._quick(c, self.st.pc if pc is None else pc) != "unsat"

    def oblige(self, name, goal, kind="safety", line=None):
        if not self.record:
            return
        if goal is True:
            goal = z3.BoolVal(True)
        fn = self.frames[-1].fn["qn"] if self.frames else (self.spec_fn or "")
        self.obls.append(Obl(name, self.st.pc, zx(goal), line, kind, fn))

    # ------------------------------------------------------------------ store access
    def direct(self, lv):
        """follows references: the location itself"""
        while lv.root != "alt" and not lv.acc and isinstance(self.st.store.get(lv.root), LV):
            lv = self.st.store[lv.root]
        return lv

    def rd(self, x):
        while isinstance(x, LV):
            x = self.read(x)
        return x

    def read(self, lv):
        if lv.root == "alt":
            c, a, b = lv.acc
            return ite(c, self.read(a), self.read(b))
        v = self.st.store.get(lv.root)
        if v is None:
            v = self.lazy_root(lv.root)
        for a in lv.acc:
            if isinstance(v, LV):
                v = self.read(v)
            v = self.get_acc(v, a)
        return v

    def lazy_root(self, root):
        if isinstance(root, tuple) and root[0] == "obj":
            _, cls, ident = root
            t = cls
            v = self.sym(t, "*" + (t.s if t.k == "rec" else str(t.k)), (ident.z if hasattr(ident, "z") else ident,))
            self.st.store[root] = v
            return v
        if isinstance(root, tuple) and root[0] == "g":
            return self.global_value(root[1])
        raise Unsupported("read of unknown location %r" % (root,))

    def global_value(self, qn):
        g = self.tu.globals.get(qn)
        if g is None:
            return Opaque(qn)
        t = ptype(g["t"])
        isconst = g["t"].startswith("const ") or (t.k == "arr") and "const " in g["t"]
        if isconst or t.k in ("str", "arr"):
            save, fr = self.st, self.frames
            try:
                self.frames = [Frame({"qn": "global " + qn}, None, {})]
                v = self.rd(self.ev(g["init"]))
            finally:
                self.frames = fr
            if v is not None:
                self.st.store[("g", qn)] = v
                return v
        v = self.sym(t, "::" + qn)
        self.st.store[("g", qn)] = v
        return v

    def get_acc(self, v, a):
        k = a[0]
        if k == "f":
            if isinstance(v, Opaque):
                return Opaque(v.what + "." + a[1])
            if isinstance(v, Struct):
                return v.get(a[1])
            raise Unsupported("field %s of %r" % (a[1], v))
        if k == "i":
            if isinstance(v, Seq):
                return v.at(a[1])
            if isinstance(v, Mat):
                return v.at(a[1], 0)
            if isinstance(v, str) or (is_sym(v) and z3.is_string(v)):
                return self.char_at(v, a[1])
            raise Unsupported("index into %r" % (v,))
        if k == "k":
            return v.get(self.keyof(a[1]))
        if k == "e":
            return v.at(a[1], a[2])
        if k == "blk":
            _, i0, j0, r, c = a
            f = v.at
            if isinstance(i0, int) and i0 == 0 and isinstance(j0, int) and j0 == 0 and same(r, v.r) and same(c, v.c):
                return v
            return mat(r, c, lambda i, j: f(add(i0, i), add(j0, j)))
        if k == "T":
            f = v.at
            m = mat(v.c, v.r, lambda i, j: f(j, i))
            return m
        if k == "diag":
            f = v.at
            return mat(v.r, 1, lambda i, j: f(i, i))
        if k == "rev":
            f, r = v.at, v.r
            return mat(v.r, v.c, lambda i, j: f(sub(sub(r, 1), i), j))
        raise Unsupported("accessor %r" % (a,))

    def char_at(self, s, i):
        if isinstance(s, str) and isinstance(i, int):
            return ord(s[i]) if i < len(s) else 0
        return z3.StrToCode(z3.SubString(zx(s), zx(i), z3.IntVal(1)))

    def set_acc(self, v, accs, new):
        if not accs:
            return new
        a, rest = accs[0], accs[1:]
        k = a[0]
        if isinstance(v, LV):
            raise Unsupported("write through stored reference")
        if k == "f":
            if isinstance(v, Opaque):
                return v
            old = v.get(a[1]) if rest else None
            return v.with_(a[1], self.set_acc(old, rest, new))
        if k == "i":
            i0 = a[1]
            if isinstance(v, Mat):
                return self.set_acc(v, (("e", i0, 0),) + rest, new)
            nv = self.set_acc(v.at(i0), rest, new) if rest else new
            f = v.f
            if isinstance(v.n, int) and isinstance(i0, int) and v.n <= 64:
                items = [f(j) if j != i0 else nv for j in range(v.n)]
                return Seq.of(items, v.et)
            return Seq(v.n, lambda i: ite(eq(i, i0), nv, f(i)) if not same(i, i0) else nv, v.et)
        if k == "k":
            q0 = self.keyof(a[1])
            old = v
            nv = self.set_acc(old.get(q0), rest, new) if rest else new
            # the entry exists (operator[] inserted it, at() and iterators check it): the key set does not change
            return MapV(old.has, lambda q: ite(eq(q, q0), nv, old.get(q)), old.kt, old.vt, old.size)
        if k == "e":
            i0, j0 = a[1], a[2]
            f = v.at
            def g(i, j):
                c = and_(eq(i, i0), eq(j, j0))
                if c is True:
                    return new
                if c is False:
                    return f(i, j)
                return ite(c, new, f(i, j))
            return mat(v.r, v.c, g)
        if k in ("blk", "T", "diag", "rev") and rest:
            inner = self.get_acc(v, a)
            return self.set_acc(v, (a,), self.set_acc(inner, rest, new))
        if k == "blk":
            _, i0, j0, r, c = a
            f, h = v.at, new.at
            def g(i, j):
                ri = eq(i, i0) if isinstance(r, int) and r == 1 else and_(ge(i, i0), lt(i, add(i0, r)))
                cj = eq(j, j0) if isinstance(c, int) and c == 1 else and_(ge(j, j0), lt(j, add(j0, c)))
                cc = and_(ri, cj)
                if cc is False:
                    return f(i, j)
                x = h(sub(i, i0), sub(j, j0))
                if cc is True:
                    return x
                return ite(cc, x, f(i, j))
            return mat(v.r, v.c, g)
        if k == "T":
            h = new.at
            return mat(v.r, v.c, lambda i, j: h(j, i))
        if k == "diag":
            f, h = v.at, new.at
            return mat(v.r, v.c, lambda i, j: ite(eq(i, j), h(i, 0), f(i, j)) if eq(i, j) is not False else f(i, j))
        if k == "rev":
            h, r = new.at, v.r
            return mat(v.r, v.c, lambda i, j: h(sub(sub(r, 1), i), j))
        raise Unsupported("write accessor %r" % (a,))

    def write(self, lv, val):
        if not isinstance(lv, LV):
            if isinstance(lv, Opaque):
                return
            raise Unsupported("assignment to a value %r" % (lv,))
        if lv.root == "alt":
            c, a, b = lv.acc
            va, vb = self.read(a), self.read(b)
            self.write(a, ite(c, val, va))
            vb = self.read(b)
            self.write(b, ite(c, vb, val))
            return
        if isinstance(lv.root, tuple) and lv.root[0] == "obj":
            self.writes_opq = True
        old = self.st.store.get(lv.root)
        if old is None and lv.acc:
            old = self.lazy_root(lv.root)
        # a reference stored in a field: write through it
        if lv.acc:
            cur = old
            for n, a in enumerate(lv.acc[:-1]):
                if isinstance(cur, LV):
                    break
                if a[0] == "f" and isinstance(cur, Struct):
                    cur = cur.get(a[1])
                    if isinstance(cur, LV):
                        return self.write(LV(cur.root, cur.acc + lv.acc[n + 1:]), val)
                else:
                    break
        self.st.store[lv.root] = self.set_acc(old, lv.acc, val)

    def temp(self, v):
        r = ("t", self.new())
        self.st.store[r] = v
        return LV(r)

    def deref(self, p):
        p = self.rd(p)
        if isinstance(p, LV):
            return p
        if isinstance(p, Ptr):
            if p.kind == "alt":
                c, a, b = p.lv
                if a.kind == "null":
                    self.oblige("no null dereference", not_(c))
                    return self.deref(b)
                if b.kind == "null":
                    self.oblige("no null dereference", c)
                    return self.deref(a)
                la, lb = self.deref(a), self.deref(b)
                return LV("alt", (c, la, lb))
            if p.kind == "null":
                self.oblige("no null dereference", False)
                raise PathEnd()
            if p.kind == "loc":
                return p.lv
            cls = p.cls
            return LV(("obj", _TK(cls), _ID(p.ident)))
        if isinstance(p, Iter):
            return self.iter_deref(p)
        if isinstance(p, Opaque):
            return p
        if isinstance(p, str) or (is_sym(p) and z3.is_string(p)):
            return self.char_at(p, 0)
        raise Unsupported("dereference of %r" % (p,))

    def iter_deref(self, it):
        v = self.rd(it.lv)
        if it.kind == "seq":
            self.oblige("iterator dereference inside the container", and_(ge(it.pos, 0), lt(it.pos, v.n)))
            if isinstance(it.lv, LV):
                pos = it.pos
                return LV(it.lv.root, it.lv.acc + (("i", pos),))
            return v.at(it.pos)
        if it.kind == "mapkey":
            self.oblige("iterator dereference inside the map", v.has(it.pos) if it.pos is not None else False)
            if it.pos is None:
                raise PathEnd()
            if isinstance(it.lv, LV):
                return Struct("std::pair", {"first": it.pos, "second": LV(it.lv.root, it.lv.acc + (("k", it.pos),))})
            return Struct("std::pair", {"first": it.pos, "second": v.get(it.pos)})
        if it.kind == "map":
            # pos: (found condition, key)
            c, key = it.pos
            self.oblige("iterator dereference inside the map", c)
            if v.vt is None:
                return key
            if isinstance(it.lv, LV):
                return Struct("std::pair", {"first": key, "second": LV(it.lv.root, it.lv.acc + (("k", key),))})
            return Struct("std::pair", {"first": key, "second": v.get(key)})
        if it.kind.startswith("mapord|"):
            from .lib_std import map_enum
            kind, n, ordf, pos = map_enum(self, v)
            if kind != it.kind:
                raise Unsupported("use of a map iterator after a change of the map")
            self.oblige("iterator dereference inside the map", and_(ge(it.pos, 0), lt(it.pos, n)))
            key = ordf(it.pos)
            if v.vt is None:
                return key
            if isinstance(it.lv, LV):
                return Struct("std::pair", {"first": key, "second": LV(it.lv.root, it.lv.acc + (("k", key),))})
            return Struct("std::pair", {"first": key, "second": v.get(key)})
        raise Unsupported("iterator kind " + it.kind)

    # ------------------------------------------------------------------ merging
    def merge2(self, c, s1, s2, pc):
        st = St({}, pc)
        a, b = s1.store, s2.store
        if len(b) > len(a):
            pass
        out = {}
        for r, va in a.items():
            vb = b.get(r)
            if vb is None:
                out[r] = va
            elif va is vb:
                out[r] = va
            else:
                out[r] = ite(c, va, vb)
        for r, vb in b.items():
            if r not in out:
                out[r] = vb
        st.store = out
        return st

    def merge(self, lst):
        """lst of (St, val) with mutually exclusive path conditions -> (St, val)"""
        if len(lst) == 1:
            return lst[0]
        pcs = [s.pc for s, _ in lst]
        p = 0
        m = min(len(x) for x in pcs)
        while p < m and all(x[p] is pcs[0][p] or (is_sym(x[p]) and is_sym(pcs[0][p]) and x[p].eq(pcs[0][p])) for x in pcs):
            p += 1
        pre = pcs[0][:p]
        gs = [and_(*x[p:]) for x in pcs]
        tot = simp(or_(*gs)) if any(g is not True for g in gs) else True
        if len(gs) == 2 and is_sym(gs[0]) and is_sym(gs[1]) and (not_(gs[0]).eq(gs[1]) or not_(gs[1]).eq(gs[0])):
            tot = True
        elif tot is not True and self._quick(not_(tot), pre) == "unsat":
            tot = True
        pc = pre if tot is True else pre + (tot,)
        st, val = lst[-1]
        for i in range(len(lst) - 2, -1, -1):
            s2, v2 = lst[i]
            if v2 is None and val is None:
                nv = None
            else:
                nv = ite(gs[i], v2, val)
            st = self.merge2(gs[i], s2, st, pc)
            val = nv
        st.pc = pc
        return st, val

    def merge_st(self, sts):
        sts = [s for s in sts if s is not None]
        if not sts:
            return None
        return self.merge([(s, None) for s in sts])[0]

    # ------------------------------------------------------------------ statements
    def stmt(self, s):
        if s is None:
            return Outs(self.st)
        m = getattr(self, "s_" + s["k"], None)
        if m is None:
            raise Unsupported("statement %s (line %s)" % (s["k"], s.get("line")))
        self.line = s.get("line")
        try:
            return m(s)
        except PathEnd:
            return Outs(None)

    def s_Null(self, s):
        return Outs(self.st)

    def s_Expr(self, s):
        self.ev(s["e"])
        return Outs(self.st)

    def s_Block(self, s):
        res = Outs()
        for x in s["s"]:
            o = self.stmt(x)
            res.b += o.b
            res.c += o.c
            res.r += o.r
            if o.n is None:
                return res
            self.st = o.n
        res.n = self.st
        return res

    def declare(self, d):
        t = d["t"]
        env = self.frames[-1].env
        if d.get("staticlocal"):
            root = ("static", self.frames[-1].fn["qn"], d["name"])
            env[d["id"]] = LV(root)
            if root not in self.st.store:
                tt = ptype(t)
                if t.startswith("const ") or tt.k not in ("int", "uint", "bool", "real"):
                    self.st.store[root] = self.init_value(d.get("init"), t)
                else:
                    self.st.store[root] = self.sym(tt, "static:" + d["name"])
            return
        if is_ref(t):
            v = self.ev(d["init"])
            if not isinstance(v, LV):
                v = self.temp(v) if not isinstance(v, (Opaque,)) else self.temp(v)
            env[d["id"]] = v
            return
        root = ("v", self.new(d["name"]))
        env[d["id"]] = LV(root)
        self.st.store[root] = self.init_value(d.get("init"), t, d["name"])

    def init_value(self, init, t, name="v"):
        tt = ptype(t)
        if init is None:
            return self.default_value(tt, name)
        v = self.ev(init)
        if (tt.k == "eig" or t.startswith("Eigen::Map<")) and isinstance(v, LV):
            return v
        v = self.rd(v)
        return self.coerce(v, tt)

    def coerce(self, v, tt):
        if tt.k == "real" and (is_num(v) or is_sym(v)):
            return toreal(v)
        if tt.k in ("int", "uint") and isinstance(v, Fraction):
            return toint(v)
        if tt.k == "seq" and isinstance(v, Seq) and v.et is None:
            return Seq(v.n, v.f, tt.a[0])
        if isinstance(v, Struct) and v.cls == "std::pair" and any(isinstance(x, LV) for x in v.fields.values()):
            return Struct(v.cls, {k: self.rd(x) for k, x in v.fields.items()})
        return v

    def default_value(self, tt, name="v"):
        """value of a default-initialised object (indeterminate for scalars and fixed Eigen coefficients)"""
        k = tt.k
        if k in ("int", "real", "bool", "ptr", "cstr", "fun"):
            return self.sym(tt, self.new("uninit_" + name), tuple(self.ctx))
        if k == "uint":
            v = self.fresh("int", "uninit_" + name)
            self.fact(v >= 0)
            return v
        if k == "str":
            return ""
        if k == "seq":
            return Seq.of([], tt.a[0])
        if k in ("map", "set"):
            return self.empty_map(tt)
        if k in ("mat", "mati"):
            r, c = tt.a
            n = self.new("uninit_" + name)
            cx = tuple(self.ctx)
            return mat(max(r, 0), max(c, 0) if c != 1 else 1, lambda i, j: self.uf(n, cx + (i, j), "real"))
        if k in ("xform", "quat", "aa"):
            return self.sym(tt, self.new("uninit_" + name), tuple(self.ctx))
        if k == "arr":
            et, n = tt.a
            return Seq.of([self.default_value(et, name) for _ in range(n)], et) if n <= 64 else \
                self.sym(tt, self.new("uninit_" + name), tuple(self.ctx))
        if k == "pair":
            return Struct("std::pair", {"first": self.default_value(tt.a[0]), "second": self.default_value(tt.a[1])})
        if k == "stream":
            return Stream("")
        if k == "rec" and tt.s in self.tu.recs:
            return self.sym(tt, self.new("uninit_" + name), tuple(self.ctx))
        if k == "rec":
            return self.sym(tt, self.new("uninit_" + name), tuple(self.ctx))
        return Opaque(name)

    def empty_map(self, tt):
        kt = tt.a[0]
        vt = tt.a[1] if tt.k == "map" else None
        return MapV(lambda q: False, lambda q: self.sym(vt, "nomap", (self.keyof(q),)) if vt is not None else q, kt, vt, 0)

    def s_Decl(self, s):
        for d in s["d"]:
            self.declare(d)
        return Outs(self.st)

    def cond(self, e):
        return simp(tobool(self.rd(self.ev(e))))

    def s_If(self, s):
        if s.get("init"):
            self.stmt(s["init"])
        if s.get("cv"):
            self.declare(s["cv"])
        c = self.cond(s["c"])
        if c is True:
            return self.stmt(s["th"])
        if c is False:
            return self.stmt(s["el"]) if s.get("el") else Outs(self.st)
        return self.branch(c, lambda: self.stmt(s["th"]), lambda: self.stmt(s["el"]) if s.get("el") else Outs(self.st))

    def branch(self, c, th, el):
        base = self.st
        res = Outs()
        ns = []
        for cc, f in ((c, th), (not_(c), el)):
            if not self.feasible(cc, base.pc):
                continue
            self.st = base.copy().assume(cc)
            o = f()
            res.b += o.b
            res.c += o.c
            res.r += o.r
            if o.n is not None:
                ns.append(o.n)
        res.n = self.merge_st(ns)
        return res

    def s_Return(self, s):
        o = Outs()
        if s.get("e") is not None:
            v = self.ev(s["e"])
            fr = self.frames[-1]
            if not fr.ret_ref:
                v = self.rd(v)
                rt = fr.fn.get("ret")
                if rt:
                    v = self.coerce(v, ptype(rt))
            elif not isinstance(v, LV):
                v = self.temp(v) if not isinstance(v, Opaque) else v
        else:
            v = None
        o.r.append((self.st, v))
        return o

    def s_Break(self, s):
        o = Outs()
        o.b.append(self.st)
        return o

    def s_Continue(self, s):
        o = Outs()
        o.c.append(self.st)
        return o

    def s_Switch(self, s):
        v = self.rd(self.ev(s["c"]))
        items = []  # flattened [(labels, stmt)]
        def flat(x, labels):
            while x is not None and x["k"] in ("Case", "Default"):
                if x["k"] == "Case":
                    labels = labels + [self.rd(self.ev(x["v"]))]
                else:
                    labels = labels + ["default"]
                x = x["s"]
            items.append((labels, x))
        body = s["b"]["s"] if s["b"]["k"] == "Block" else [s["b"]]
        for x in body:
            flat(x, [])
        allv = [l for ls, _ in items for l in ls if l != "default"]
        nomatch = and_(*[ne(v, l) for l in allv])
        base = self.st
        res = Outs()
        cur = None
        exits = []
        hasdef = any("default" in ls for ls, _ in items)
        if not hasdef and self.feasible(nomatch, base.pc):
            exits.append(base.copy().assume(simp(nomatch)))
        for ls, x in items:
            if ls:
                c = simp(or_(*[nomatch if l == "default" else eq(v, l) for l in ls]))
                if self.feasible(c, base.pc):
                    ent = base.copy().assume(c)
                    cur = self.merge_st([cur, ent])
            if cur is None:
                continue
            self.st = cur
            o = self.stmt(x)
            res.c += o.c
            res.r += o.r
            exits += o.b
            cur = o.n
        if cur is not None:
            exits.append(cur)
        res.n = self.merge_st(exits)
        return res

    def s_Try(self, s):
        saved, self.thr = self.thr, []
        base = self.st
        o = self.stmt(s["b"])
        thrown, self.thr = self.thr, saved
        ns = [o.n] if o.n is not None else []
        for st, val in thrown:
            done = False
            for h in s["h"]:
                if h.get("v") is None or self.exc_matches(val, h["v"]["t"]):
                    self.st = st
                    if h.get("v"):
                        root = ("v", self.new("exc"))
                        self.st.store[root] = val
                        self.frames[-1].env[h["v"]["id"]] = LV(root)
                    self.rethrow = val
                    oo = self.stmt(h["b"])
                    if oo.n is not None:
                        ns.append(oo.n)
                    o.b += oo.b
                    o.c += oo.c
                    o.r += oo.r
                    done = True
                    break
            if not done:
                self.thr.append((st, val))
        o.n = self.merge_st(ns)
        return o

    def exc_matches(self, val, t):
        c = strip_cv(t.replace("&", ""))
        vc = val.cls if isinstance(val, Struct) else getattr(val, "what", "")
        if vc == c:
            return True
        if c in self.tu.bases(vc):
            return True
        std = {"std::exception": ("std::", "boost::"), "std::logic_error": ("std::invalid_argument", "std::out_of_range",
                "std::length_error", "std::domain_error"), "std::runtime_error": ("std::range_error", "std::overflow_error")}
        for p in std.get(c, ()):
            if vc.startswith(p):
                return True
        return False

    # loops -------------------------------------------------------------
    def s_For(self, s):
        if s.get("init"):
            self.stmt(s["init"])
        return self.loop(s, (lambda: self.cond(s["c"])) if s.get("c") else (lambda: True),
                         lambda: self.stmt(s["b"]), (lambda: self.ev(s["inc"])) if s.get("inc") else None)

    def s_While(self, s):
        return self.loop(s, lambda: self.cond(s["c"]), lambda: self.stmt(s["b"]), None)

    def s_Do(self, s):
        o = self.stmt(s["b"])
        conts = [o.n] + o.c
        st = self.merge_st(conts)
        res = Outs()
        res.r += o.r
        exits = list(o.b)
        if st is not None:
            self.st = st
            o2 = self.loop(s, lambda: self.cond(s["c"]), lambda: self.stmt(s["b"]), None)
            res.r += o2.r
            if o2.n is not None:
                exits.append(o2.n)
        res.n = self.merge_st(exits)
        return res

    def s_RangeFor(self, s):
        self.stmt(s["rangedecl"])
        self.stmt(s["begin"])
        self.stmt(s["end"])

        def body():
            o = self.stmt(s["vardecl"])
            if o.n is None:
                return o
            return self.stmt(s["b"])
        return self.loop(s, lambda: self.cond(s["c"]), body, lambda: self.ev(s["inc"]))

    def loop(self, s, cond, body, inc):
        from . import loops
        return loops.run_loop(self, s, cond, body, inc)

    # ------------------------------------------------------------------ expressions
    def ev(self, e):
        m = getattr(self, "e_" + e["k"], None)
        if m is None:
            raise Unsupported("expression %s (line %s)" % (e["k"], e.get("line")))
        if e.get("line"):
            self.line = e["line"]
        return m(e)

    def e_Temp(self, e):
        v = self.ev(e["e"])
        if isinstance(v, LV) or isinstance(v, Opaque):
            return v
        return self.temp(v)

    def e_Int(self, e):
        return int(e["v"])

    def e_Char(self, e):
        return int(e["v"])

    def e_Float(self, e):
        sp = e.get("sp", "")
        if re.match(r"^[0-9.]+([eE][+-]?\d+)?[fFlL]?$", sp):
            return Fraction(sp.rstrip("fFlL"))
        v = e["v"]
        return Fraction(v)

    def e_Bool(self, e):
        return bool(e["v"])

    def e_Str(self, e):
        return e["v"]

    def e_Null(self, e):
        return NULL

    def e_Enum(self, e):
        return int(e["v"])

    def e_This(self, e):
        return Ptr("loc", lv=self.frames[-1].this)

    def e_FnRef(self, e):
        return Fun(fn=e)

    def e_ZeroInit(self, e):
        return self.zero(ptype(e["t"]))

    def zero(self, t):
        k = t.k
        if k in ("int", "uint"):
            return 0
        if k == "real":
            return Fraction(0)
        if k == "bool":
            return False
        if k in ("ptr", "cstr"):
            return NULL
        if k == "str":
            return ""
        if k == "arr":
            return Seq.of([self.zero(t.a[0]) for _ in range(t.a[1])], t.a[0])
        if k == "rec" and t.s in self.tu.recs:
            return Struct(t.s, {n: self.zero(ptype(ft)) for n, ft, _, _ in self.tu.all_fields(t.s)})
        if k == "rec" and self.looks_enum(t.s):
            return 0
        return self.default_value(t)

    def e_Ref(self, e):
        env = self.frames[-1].env
        if e["id"] in env:
            x = env[e["id"]]
            if isinstance(x, LV):
                v = self.st.store.get(x.root) if not x.acc else None
                if isinstance(v, LV):   # Eigen view held in an auto variable
                    return v
            return x
        if e.get("global"):
            return self.global_lv(e["global"])
        raise Unsupported("unknown variable %s" % e.get("name"))

    def global_lv(self, qn):
        if qn in ("std::cout", "std::cerr", "std::clog", "std::cin"):
            return Opaque(qn)
        return LV(("g", qn))

    def e_Member(self, e):
        b = self.ev(e["e"])
        if e["arrow"]:
            b = self.deref(b)
        return self.member(b, e["f"])

    def member(self, b, f):
        if isinstance(b, LV):
            lv = b.sub("f", f)
            if b.root != "alt":
                v = None
                try:
                    v = self.read(lv)
                except Unsupported:
                    return lv
                if isinstance(v, LV):
                    return v
                return lv
            c, x, y = b.acc
            return LV("alt", (c, self.member(x, f), self.member(y, f)))
        if isinstance(b, Struct):
            return b.get(f)
        if isinstance(b, Opaque):
            return Opaque(b.what + "." + f)
        raise Unsupported("member %s of %r" % (f, b))

    def e_Cast(self, e):
        ck = e["ck"]
        if ck in ("NoOp", "DerivedToBase", "UncheckedDerivedToBase", "ConstructorConversion", "UserDefinedConversion",
                  "FunctionToPointerDecay", "BaseToDerived", "Dependent", "AtomicToNonAtomic", "BitCast", "LValueBitCast"):
            return self.ev(e["e"])
        if ck == "Dynamic":
            v = self.ev(e["e"])
            return self.dynamic_cast(v, e)
        if ck == "ArrayToPointerDecay":
            v = self.ev(e["e"])
            if isinstance(v, LV):
                x = self.read(v)
                if isinstance(x, Seq):
                    return Iter(v, 0)
                return x
            return v
        v = self.ev(e["e"])
        if ck == "LValueToRValue":
            return self.rd(v)
        if ck == "ToVoid":
            return None
        v = self.rd(v)
        if ck == "NullToPointer":
            return NULL
        if ck in ("IntegralCast",):
            return self.int_cast(v, ptype(e["t"]), ptype(e["e"]["t"]))
        if ck in ("IntegralToBoolean", "FloatingToBoolean", "PointerToBoolean"):
            if isinstance(v, Opaque):
                return Opaque("bool")
            return tobool(v)
        if ck == "BooleanToSignedIntegral":
            return v
        if ck == "IntegralToFloating":
            return toreal(v)
        if ck == "FloatingToIntegral":
            return toint(v)
        if ck == "FloatingCast":
            return toreal(v)
        raise Unsupported("cast " + ck)

    def dynamic_cast(self, v, e):
        v0 = self.rd(v)
        if isinstance(v0, Ptr):
            if v0.kind == "loc":
                o = self.read(v0.lv)
                tgt = ptype(e["t"])
                if isinstance(o, Struct) and tgt.k == "ptr":
                    if tgt.a[0].s in self.tu.bases(o.cls):
                        return v0
                    return NULL
            if v0.kind == "opq":
                tgt = ptype(e["t"])
                return Ptr("opq", ident=self.uf("dyncast<%s>" % tgt.a[0].s, (v0.ident,), "int"), cls=tgt.a[0])
        if isinstance(v, LV):
            return v
        return v

    def width(self, t):
        s = t.s
        if "long" in s:
            return 64
        if "short" in s:
            return 16
        if "char" in s:
            return 8
        return 32

    def int_cast(self, v, to, frm):
        if isinstance(v, Opaque):
            return v
        if not (is_scalar(v)):
            return v
        if isinstance(v, bool):
            return int(v)
        if is_sym(v) and z3.is_bool(v):
            return toint(v)
        if to.k == "uint":
            M = 2 ** self.width(to)
            if not is_sym(v):
                return v % M
            if frm.k == "uint":
                return v
            if self.known(v >= 0):
                return v
            # modular value kept in a recognisable form
            return z3.If(v >= 0, v, v + M)
        if to.k == "int":
            M = 2 ** self.width(to)
            if not is_sym(v):
                w = v % M
                return w - M if w >= M // 2 else w
            if z3.is_app_of(v, z3.Z3_OP_ITE) and frm.k == "uint":
                a, b = v.arg(1), v.arg(2)
                if z3.is_app_of(b, z3.Z3_OP_ADD) and b.num_args() == 2 and b.arg(0).eq(a) and z3.is_int_value(b.arg(1)):
                    return a
            return v
        return v

    def e_Un(self, e):
        op = e["op"]
        if op == "*":
            return self.deref(self.ev(e["e"]))
        if op == "&":
            v = self.ev(e["e"])
            if isinstance(v, LV):
                return addr_of(self.direct(v))
            if isinstance(v, Fun):
                return v
            if isinstance(v, Opaque):
                return v
            raise Unsupported("address of a value")
        if op in ("++", "--"):
            lv = self.ev(e["e"])
            old = self.rd(lv)
            d = 1 if op == "++" else -1
            new = self.bump(old, d, ptype(e["e"]["t"]))
            self.write(lv, new)
            return old if e.get("post") else lv
        v = self.rd(self.ev(e["e"]))
        if op == "!":
            return not_(tobool(v)) if not isinstance(v, Opaque) else v
        if op == "-":
            if ptype(e["t"]).k == "uint":
                return self.wrap(neg(v), ptype(e["t"]))
            return neg(v)
        if op == "+":
            return v
        raise Unsupported("unary " + op)

    def bump(self, old, d, t):
        if isinstance(old, Iter):
            return Iter(old.lv, add(old.pos, -d if old.rev else d), old.kind, old.rev)
        if t.k == "uint" and d < 0:
            return self.wrap(add(old, d), t)
        return add(old, Fraction(d) if is_real(old) else d)

    def wrap(self, v, t):
        if not is_sym(v):
            return v % (2 ** self.width(t))
        if self.known(v >= 0):
            return v
        return z3.If(v >= 0, v, v + 2 ** self.width(t))

    def e_CAssign(self, e):
        lv = self.ev(e["l"])
        r = self.rd(self.ev(e["r"]))
        old = self.rd(lv)
        t, lt_ = ptype(e["ct"]), ptype(e["l"]["t"])
        if t.k == "real" and is_scalar(old):
            old = toreal(old)
        v = self.binop(e["op"], old, r, t)
        if lt_.k in ("int", "uint") and is_real(v):
            v = toint(v)
        if lt_.k == "bool":
            v = tobool(v)
        self.write(lv, v)
        return lv

    def e_Bin(self, e):
        op = e["op"]
        if op == "=":
            # right operand first (C++17 order; harmless for C++14)
            r = self.rd(self.ev(e["r"]))
            lv = self.ev(e["l"])
            if isinstance(lv, LV):
                r = self.coerce(r, ptype(e["l"]["t"]))
            self.write(lv, r)
            return lv
        if op == ",":
            self.ev(e["l"])
            return self.ev(e["r"])
        if op in ("&&", "||"):
            return self.shortcut(op, lambda: tobool(self.rd(self.ev(e["l"]))), lambda: tobool(self.rd(self.ev(e["r"]))))
        a = self.rd(self.ev(e["l"]))
        b = self.rd(self.ev(e["r"]))
        return self.binop(op, a, b, ptype(e["t"]), ptype(e["l"]["t"]))

    def shortcut(self, op, l, r):
        a = simp(l())
        if a is True:
            return r() if op == "&&" else True
        if a is False:
            return False if op == "&&" else r()
        base = self.st
        g = a if op == "&&" else not_(a)
        if not self.feasible(g, base.pc):
            return op != "&&"
        self.st = base.copy().assume(g)
        try:
            b = r()
            st2 = self.st
        except PathEnd:
            self.st = base.assume(not_(g))
            return op != "&&"
        if st2.store == base.store or all(base.store.get(k) is v for k, v in st2.store.items() if k in base.store):
            # no side effect on existing locations
            extra = st2.pc[len(base.pc) + 1:]
            self.st = St(st2.store, base.pc)
            if extra:
                self.st = self.st.assume(implies(g, and_(*extra)))
        else:
            self.st = self.merge([(st2, None), (base.copy().assume(not_(g)), None)])[0]
        return and_(a, b) if op == "&&" else or_(a, b)

    def e_Cond(self, e):
        c = self.cond(e["c"])
        if c is True:
            return self.ev(e["l"])
        if c is False:
            return self.ev(e["r"])
        base = self.st
        outs = []
        isl = e.get("lv") == 1
        for cc, x in ((c, e["l"]), (not_(c), e["r"])):
            if not self.feasible(cc, base.pc):
                continue
            self.st = base.copy().assume(cc)
            try:
                v = self.ev(x)
                if not isl:
                    v = self.rd(v)
                outs.append((self.st, v))
            except PathEnd:
                pass
        if not outs:
            raise PathEnd()
        if isl and len({isinstance(v, LV) for _, v in outs}) > 1:      # a reference and a materialised constant
            for k, (s_, v) in enumerate(outs):
                self.st = s_
                outs[k] = (s_, self.rd(v))
        self.st, v = self.merge(outs)
        return v

    def binop(self, op, a, b, t=None, lt_=None):
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return Opaque("op")
        if isinstance(a, Iter) or isinstance(b, Iter):
            return self.iter_op(op, a, b)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if op == "==":
                return ptr_eq(a, b)
            if op == "!=":
                return not_(ptr_eq(a, b))
            raise Unsupported("pointer arithmetic")
        if op == "+":
            return add(a, b)
        if op == "-":
            v = sub(a, b)
            if t is not None and t.k == "uint":
                return self.wrap(v, t)
            return v
        if op == "*":
            return mul(a, b)
        if op == "/":
            if is_real(a) or is_real(b):
                return self.fdiv(a, b)
            self.oblige("integer divisor is not zero", ne(b, 0))
            return idiv(a, b)
        if op == "%":
            self.oblige("integer divisor is not zero", ne(b, 0))
            return imod(a, b)
        if op == "<":
            return lt(a, b)
        if op == ">":
            return gt(a, b)
        if op == "<=":
            return le(a, b)
        if op == ">=":
            return ge(a, b)
        if op == "==":
            return eq(a, b)
        if op == "!=":
            return ne(a, b)
        if op in ("&", "|", "^") and is_boolv(a) and is_boolv(b):
            return and_(a, b) if op == "&" else or_(a, b) if op == "|" else ne(a, b)
        if op in ("&", "|", "^"):
            ba, bb = bit01(a), bit01(b)
            if ba is not None and bb is not None:
                r = and_(ba, bb) if op == "&" else or_(ba, bb) if op == "|" else ne(ba, bb)
                return ite(r, 1, 0)
        if op in ("&", "|", "^", "<<", ">>"):
            a, b = simp(a), simp(b)
            if isinstance(a, bool):
                a = int(a)
            if isinstance(b, bool):
                b = int(b)
            if not is_sym(a) and not is_sym(b):
                return {"&": a & b, "|": a | b, "^": a ^ b, "<<": a << b if b < 100 else 0, ">>": a >> b}[op]
            if op == "<<" and not is_sym(b):
                return mul(a, 2 ** b)
            if op == ">>" and not is_sym(b):
                return zx(a) / z3.IntVal(2 ** b)
            if op == "&" and not is_sym(b) and b > 0 and (b & (b + 1)) == 0:
                return zx(a) % z3.IntVal(b + 1)
            return self.uf("bit" + op, (a, b), "int")
        raise Unsupported("operator " + op)

    def fdiv(self, a, b):
        return div(a, b)

    def iter_op(self, op, a, b):
        if isinstance(a, Iter) and isinstance(b, Iter):
            if a.kind != b.kind:
                from .lib_std import map_order
                if a.kind == "map" and b.kind.startswith("mapord|"):
                    a = map_order(self, a)
                elif b.kind == "map" and a.kind.startswith("mapord|"):
                    b = map_order(self, b)
                if a.kind != b.kind:
                    raise Unsupported("iterators of different kinds")
            if a.kind == "map":
                ca, ka = a.pos
                cb, kb = b.pos
                e = or_(and_(not_(ca), not_(cb)), and_(ca, cb, eq(ka, kb)))
                if op == "==":
                    return simp(e)
                if op == "!=":
                    return simp(not_(e))
                raise Unsupported("map iterator operator")
            if op == "==":
                return eq(a.pos, b.pos)
            if op == "!=":
                return ne(a.pos, b.pos)
            if op == "-":
                return sub(a.pos, b.pos)
            x, y = (b.pos, a.pos) if a.rev else (a.pos, b.pos)
            if op == "<":
                return lt(x, y)
            if op == ">":
                return gt(x, y)
            if op == "<=":
                return le(x, y)
            if op == ">=":
                return ge(x, y)
        if isinstance(a, Iter) and is_scalar(b):
            d = b if op == "+" else neg(b)
            if a.rev:
                d = neg(d)
            return Iter(a.lv, add(a.pos, d), a.kind, a.rev)
        if isinstance(b, Iter) and is_scalar(a) and op == "+":
            return Iter(b.lv, add(b.pos, a), b.kind, b.rev)
        if isinstance(b, Ptr) and b.kind == "null":
            return op == "!="
        raise Unsupported("iterator operator " + op)

    def e_Index(self, e):
        b = self.rd(self.ev(e["b"])) if e["b"]["k"] != "Ref" else self.ev(e["b"])
        i = self.rd(self.ev(e["i"]))
        if isinstance(b, LV):
            b2 = self.read(b)
            if isinstance(b2, Seq):
                b = Iter(b, 0)
            else:
                b = b2
        if isinstance(b, Iter):
            pos = add(b.pos, i)
            v = self.rd(b.lv)
            if isinstance(v, Seq):
                self.oblige("array index inside bounds", and_(ge(pos, 0), lt(pos, v.n)))
            if isinstance(b.lv, LV):
                return LV(b.lv.root, b.lv.acc + (("i", pos),))
            return v.at(pos)
        if isinstance(b, str) or (is_sym(b) and z3.is_string(b)):
            return self.char_at(b, i)
        if isinstance(b, Ptr) and b.kind == "loc":
            if isinstance(i, int) and i == 0:
                return b.lv
        raise Unsupported("subscript on %r" % (b,))

    def e_InitList(self, e):
        t = ptype(e["t"])
        if t.k == "rec" and t.s in self.tu.recs:
            fs = self.tu.recs[t.s]["fields"]
            d = {}
            for f, x in zip(fs, e["a"]):
                d[f["name"]] = self.coerce(self.rd(self.ev(x)), ptype(f["t"]))
            return Struct(t.s, d)
        if t.k == "arr":
            et, n = t.a
            items = [self.coerce(self.rd(self.ev(x)), et) for x in e["a"]]
            while len(items) < n:
                items.append(self.zero(et))
            return Seq.of(items, et)
        if len(e["a"]) == 1:
            return self.ev(e["a"][0])
        if not e["a"]:
            return self.zero(t)
        items = [self.rd(self.ev(x)) for x in e["a"]]
        return Seq.of(items)

    def e_ArrayCopy(self, e):
        return self.rd(self.ev(e["e"]))

    def e_Opaque(self, e):
        return self.ev(e["e"]) if e.get("e") else Opaque("ov")

    def e_Typeid(self, e):
        return Opaque("typeid")

    def e_Throw(self, e):
        if e.get("e") is None:
            v = getattr(self, "rethrow", Opaque("exception"))
        else:
            v = self.rd(self.ev(e["e"]))
            c = strip_cv(str(e["e"].get("t", "")).replace("&", "")).strip()
            if isinstance(v, Struct) and v.cls != c and c in self.tu.bases(v.cls):
                # what is thrown is a copy of the static type
                v = Struct(c, dict(v.fields), v.mk)
        self.thr.append((self.st, v))
        raise PathEnd()

    def e_Lambda(self, e):
        return Fun(node=e, caps=(dict(self.frames[-1].env), self.frames[-1].this))

    def e_New(self, e):
        t = ptype(e["nt"])
        if e.get("n") is not None:
            n = self.rd(self.ev(e["n"]))
            nm = self.new("newarr")
            if isinstance(n, int) and n <= 64:
                v = Seq.of([self.default_value(t) for _ in range(n)], t)
            else:
                v = Seq(n, lambda i: self.sym(t, nm, (i,)), t)
            lv = self.temp(v)
            return Iter(lv, 0)
        if t.k == "rec" and t.s.startswith("dynamicgraph::command"):
            return Opaque("command")
        v = self.rd(self.ev(e["init"])) if e.get("init") is not None else self.default_value(t)
        if e.get("place") is not None:
            # built where it is told to: a view of a block of memory is the block as it is now
            self.assumed.add("memory seen through an Eigen::Map is not written by other means while the map is in use")
            p = self.rd(self.ev(e["place"]))
            self.write(self.deref(p), v)
            return p
        root = ("heap", self.new())
        self.st.store[root] = v
        return Ptr("loc", lv=LV(root))

    def e_Delete(self, e):
        self.ev(e["e"])
        return None

    # ------------------------------------------------------------------ calls
    def args(self, e, key="a"):
        out = []
        for x in e.get(key, []):
            out.append(self.ev(x))
        return out

    def e_Op(self, e):
        a = e["a"]
        fn = e.get("fn")
        if fn is None:
            raise Unsupported("operator call without callee")
        if e["op"] in ("&&", "||"):
            raise Unsupported("overloaded logical operator")
        if e.get("fk") and e["fk"] in self.tu.fns:
            f = self.tu.fns[e["fk"]]
            if f.get("cls") and not f.get("static"):
                o = self.ev(a[0])
                rest = [self.ev(x) for x in a[1:]]
                return self.call_repo(f, o, rest, e)
            return self.call_repo(f, None, [self.ev(x) for x in a], e)
        if e["op"] == "=" and len(a) == 2:
            r = self.ev(a[1])
            l = self.ev(a[0])
            vals = [l, r]
        else:
            vals = [self.ev(x) for x in a]
        if vals and isinstance(self.peek(vals[0]), Fun) and e["op"] == "()":
            return self.call_fun(self.rd(vals[0]), vals[1:])
        if fn == e.get("cls", "") or "(lambda" in fn:
            raise Unsupported("lambda call")
        return self.lib_call(fn, e, None, vals)

    def peek(self, x):
        if isinstance(x, LV):
            try:
                return self.read(x)
            except Unsupported:
                return None
        return x

    def call_fun(self, f, args):
        if f.node is not None:
            n = f.node
            env, this = f.caps
            fr = Frame({"qn": "lambda", "ret": ""}, this, dict(env))
            for p, a in zip(n["params"], args):
                self.bind_param(fr, p, a)
            return self.exec_body(fr, n["body"])
        if f.fn is not None:
            fk = f.fn.get("fk")
            if fk in self.tu.fns:
                g = self.tu.fns[fk]
                allargs = list(f.bound) + list(args) if f.bound else list(args)
                if g.get("cls") and not g.get("static"):
                    return self.call_repo(g, self.deref(allargs[0]), allargs[1:], f.fn)
                return self.call_repo(g, None, allargs, f.fn)
            return self.lib_call(f.fn["fn"], f.fn, None, args)
        raise Unsupported("call of unknown function object")

    def e_MCall(self, e):
        o = self.ev(e["o"]) if e.get("o") is not None else None
        if e.get("mp") is not None:
            raise Unsupported("pointer to member call")
        if e.get("arrow") and o is not None:
            o = self.deref(o)
        if isinstance(o, Opaque) and not (e.get("fk") and e["fk"] in self.tu.fns and o.what == "this"):
            a = self.args(e)
            return Opaque(o.what + "." + str(e.get("fn")))
        f = self.tu.fns.get(e.get("fk")) if e.get("fk") else None
        if e.get("virt") and not e.get("qual"):
            g = self.virtual_target(o, e)
            if g is not None:
                f = g
            elif f is not None and self.is_unknown_dyn(o):
                f = None if e["fn"] in self.contracts else f
        a = self.args(e)
        if e.get("fn") in self.contracts:
            return self.apply_contract(e["fn"], o, a, e)
        if f is not None:
            return self.call_repo(f, o, a, e)
        return self.lib_call(e["fn"], e, o, a)

    def is_unknown_dyn(self, o):
        return isinstance(o, LV) and isinstance(o.root, tuple) and o.root[0] == "obj"

    def virtual_target(self, o, e):
        v = self.peek(o)
        if not isinstance(v, Struct):
            return None
        if self.is_unknown_dyn(o):
            return None
        name = e["fn"].split("::")[-1]
        for c in self.tu.bases(v.cls):
            r = self.tu.recs.get(c)
            if not r:
                continue
            for f in self.tu.by_qn.get(r["qn"] + "::" + name, []):
                if f.get("cls") and strip_cv(f["cls"]) == c and len(f["params"]) == len(e.get("pt", [])) \
                        and [p["t"] for p in f["params"]] == e.get("pt", []):
                    return f
        return None

    def e_Call(self, e):
        if e.get("fn") is None:
            c = self.rd(self.ev(e["callee"]))
            if isinstance(c, Fun):
                return self.call_fun(c, self.args(e))
            if isinstance(c, Opaque):
                self.args(e)
                return c
            raise Unsupported("indirect call")
        a = self.args(e)
        if e["fn"] in self.contracts:
            return self.apply_contract(e["fn"], None, a, e)
        if e.get("fk") and e["fk"] in self.tu.fns:
            return self.call_repo(self.tu.fns[e["fk"]], None, a, e)
        return self.lib_call(e["fn"], e, None, a)

    def apply_contract(self, fn, o, a, e):
        self.assumed.add("callee contract used at call site: " + fn)
        return self.contracts[fn](self, o, a, e)

    def e_Construct(self, e):
        fn = e.get("fn")
        f = self.tu.fns.get(e.get("fk")) if e.get("fk") else None
        if (e.get("copy") or e.get("move")) and len(e["a"]) >= 1:
            t = ptype(e["t"])
            if f is None or t.k != "rec" or not self.user_written_copy(f):
                v = self.ev(e["a"][0])
                if t.k == "eig" or strip_cv(e["t"]).startswith("Eigen::Ref<"):
                    return v
                return self.rd(v)
        a = self.args(e)
        if fn in self.contracts:
            return self.apply_contract(fn, None, a, e)
        if f is not None:
            return self.construct(f, ptype(e["t"]).s, a, e)
        return self.lib_ctor(fn, e, a)

    def user_written_copy(self, f):
        b = f.get("body")
        return bool(b and b.get("s")) or any(i.get("written") for i in f.get("inits", []))

    def construct(self, f, cls, a, e=None):
        root = ("t", self.new("obj"))
        nm = self.new("uninit")
        st = Struct(cls, {}, self.symrec(cls, nm, tuple(self.ctx)).mk)
        self.st.store[root] = st
        self.run_ctor(f, LV(root), a)
        return self.read(LV(root))

    def run_ctor(self, f, this, a):
        fr = Frame(f, this, {})
        self.used_fns.setdefault(f["qn"], (f.get("file"), f.get("line")))
        for p, x in zip(f["params"], a):
            self.bind_param(fr, p, x)
        if f.get("variadic"):
            fr.env["va"] = [self.rd(x) for x in a[len(f["params"]):]]
        self.frames.append(fr)
        if len(self.frames) > 60:
            raise Unsupported("call depth")
        try:
            for i in f.get("inits", []):
                if i.get("f"):
                    ft = self.tu.field_type(strip_cv(f["cls"]), i["f"])
                    if i["e"] is None:
                        continue
                    v = self.ev(i["e"])
                    if ft and is_ref(ft):
                        self.write_field(this, i["f"], v)
                    else:
                        v = self.rd(v)
                        v = self.name_signal(v, f, i["f"])
                        self.write_field(this, i["f"], self.coerce(v, ptype(ft)) if ft else v)
                elif i.get("base") or i.get("deleg"):
                    self.base_init(i, this)
        except PathEnd:
            self.frames.pop()
            raise
        self.frames.pop()
        self.exec_body(fr, f["body"])

    def name_signal(self, v, f, field):
        if isinstance(v, SigV):
            r = SigV(v.ty, strip_cv(f["cls"]) + "." + field, v.args, v.over, v.plugged)
            r.deps = getattr(v, "deps", None)
            return r
        return v

    def base_init(self, i, this):
        e = i["e"]
        while e is not None and e["k"] in ("Cast", "Temp"):
            e = e["e"]
        if e is None or e["k"] != "Construct":
            if e is not None and e["k"] in ("InitList", "ZeroInit"):
                return
            raise Unsupported("base initialiser " + str(e and e["k"]))
        g = self.tu.fns.get(e.get("fk")) if e.get("fk") else None
        if g is not None:
            if (e.get("copy") or e.get("move")) and not self.user_written_copy(g):
                src = self.rd(self.ev(e["a"][0]))
                dst = self.read(this)
                for n, t, _, _ in self.tu.all_fields(strip_cv(g["cls"])):
                    dst = dst.with_(n, src.get(n))
                self.write(this, dst)
                return
            self.run_ctor(g, this, self.args(e))
            return
        a = self.args(e)
        self.lib_base_ctor(e.get("fn"), this, a, e)

    def lib_base_ctor(self, fn, this, a, e):
        if fn and fn.startswith("dynamicgraph::Entity"):
            if a:
                self.write_field(this, "name", self.rd(a[0]))
            return
        if fn and (fn.startswith("std::exception") or fn.startswith("boost::") or fn.startswith("Eigen::")):
            return
        if fn and fn.startswith("std::") and a:
            self.write_field(this, "__what", self.rd(a[0]))
            return
        if fn and fn.startswith("dynamicgraph::"):
            return
        raise Unsupported("base class constructor " + str(fn))

    def write_field(self, this, f, v):
        o = self.read(this)
        self.write(this, o.with_(f, v))

    def bind_param(self, fr, p, a):
        if is_ref(p["t"]):
            if not isinstance(a, LV):
                a = self.temp(a)
            fr.env[p["id"]] = a
        else:
            root = ("v", self.new(p["name"] or "p"))
            tt = ptype(p["t"])
            if isinstance(a, LV) and (tt.k == "eig" or strip_cv(p["t"]).startswith("Eigen::Ref<")):
                fr.env[p["id"]] = a     # a view of the caller's object
                return
            v = self.coerce(self.rd(a), tt)
            self.st.store[root] = v
            fr.env[p["id"]] = LV(root)

    def call_repo(self, f, o, a, e):
        if f["qn"] in self.contracts:
            return self.apply_contract(f["qn"], o, a, e)
        if f["qn"].startswith("dynamicgraph::sot::DebugTrace") or "__null_stream" in f["qn"]:
            return Opaque("debug")
        this = None
        if f.get("cls") and not f.get("static"):
            this = o if isinstance(o, LV) else (self.temp(o) if o is not None else None)
        if f["qn"].endswith("::operator="):
            # compiler-generated assignment
            if not f["body"] or (f.get("implicit")):
                pass
        fr = Frame(f, this, {}, is_ref(f["ret"]))
        self.used_fns.setdefault(f["qn"], (f.get("file"), f.get("line")))
        for p, x in zip(f["params"], a):
            self.bind_param(fr, p, x)
        if f.get("variadic"):
            fr.env["va"] = [self.rd(x) for x in a[len(f["params"]):]]
        return self.exec_body(fr, f["body"])

    def exec_body(self, fr, body):
        if len(self.frames) > 60:
            raise Unsupported("call depth")
        self.frames.append(fr)
        try:
            o = self.stmt(body)
        finally:
            self.frames.pop()
        outs = list(o.r)
        if o.n is not None:
            outs.append((o.n, None))
        if not outs:
            raise PathEnd()
        if len(outs) > 1 and any(v is None for _, v in outs) and any(v is not None for _, v in outs):
            outs = [(s, v if v is not None else self.sym_like(outs)) for s, v in outs]
        self.st, v = self.merge(outs)
        return v

    def sym_like(self, outs):
        raise Unsupported("control reaches the end of a value-returning function")

    def lib_call(self, fn, e, o, a):
        if fn in self.contracts:
            return self.apply_contract(fn, o, a, e)
        h = LIB.get(fn)
        if h is None:
            for pat, hh in LIBPAT:
                if pat.match(fn):
                    h = hh
                    break
        if h is None:
            if any(isinstance(x, Opaque) for x in ([o] if o is not None else []) + a[:1]):
                return Opaque(fn)
            raise Unsupported("library function %s (line %s)" % (fn, e.get("line")))
        self.lib_used.add(fn)
        return h(self, e, o, a)

    def lib_ctor(self, fn, e, a):
        h = LIB.get(fn)
        if h is None:
            for pat, hh in LIBPAT:
                if pat.match(fn):
                    h = hh
                    break
        if h is None:
            t = ptype(e["t"])
            if t.k == "opaque" or t.k == "fun" or t.s.startswith("dynamicgraph::command"):
                return Opaque(t.s)
            if t.k == "rec" and not a:
                return self.default_value(t)
            raise Unsupported("constructor %s (line %s)" % (fn, e.get("line")))
        self.lib_used.add(fn)
        return h(self, e, None, a)

    # ------------------------------------------------------------------ entry
    def run(self, f, this=None, args=()):
        """Execute function f from the current state; returns (value, normal state or None, throws)."""
        self.thr = []
        base = self.st
        try:
            if f["qn"].endswith("::ctor"):
                self.run_ctor(f, this, list(args))
                v = None
            else:
                save = self.contracts.get(f["qn"])
                if save is not None:
                    del self.contracts[f["qn"]]
                try:
                    v = self.call_repo(f, this, list(args), None)
                finally:
                    if save is not None:
                        self.contracts[f["qn"]] = save
            st = self.st
        except PathEnd:
            v, st = None, None
        return v, st, self.thr


def bit01(x):
    """condition c when x is a boolean or If(c, 1, 0)"""
    if isinstance(x, bool) or is_sym(x) and z3.is_bool(x):
        return x
    if isinstance(x, int) and x in (0, 1):
        return bool(x)
    if is_sym(x) and z3.is_app_of(x, z3.Z3_OP_ITE):
        a, b = _const(x.arg(1)), _const(x.arg(2))
        if isinstance(a, int) and isinstance(b, int):
            if a == 1 and b == 0:
                return x.arg(0)
            if a == 0 and b == 1:
                return z3.Not(x.arg(0))
    return None


class _ID:
    """hashable wrapper of an identity expression"""
    __slots__ = ("z", "h")

    def __init__(self, z):
        self.z = z
        self.h = z if not is_sym(z) else ("z", z.get_id())

    def __hash__(self):
        return hash(self.h)

    def __eq__(self, o):
        return isinstance(o, _ID) and self.h == o.h

    def __repr__(self):
        return str(self.z)


def addr_of(lv):
    if isinstance(lv.root, tuple) and lv.root[0] == "obj" and not lv.acc:
        return Ptr("opq", ident=lv.root[2].z, cls=lv.root[1])
    return Ptr("loc", lv=lv)


class _TK(T):
    """type descriptor usable inside a store key"""
    __slots__ = ()

    def __init__(self, t):
        self.k, self.a, self.s = t.k, t.a, t.s

    def __hash__(self):
        return hash(self.s)

    def __eq__(self, o):
        return isinstance(o, T) and self.s == o.s
