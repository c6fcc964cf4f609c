"""Verification-condition generator for the Python sources: symbolic execution of the functions of the current file (read
with Python's own parser), every branch explored, loops over sequences of unknown length executed once for a generic
element (their only admitted effects are appends: the loop is then the map of its body).

Python numbers are mathematical integers and reals."""
import ast
import operator
import os
from fractions import Fraction
import z3
from .values import Unsupported, is_sym, is_num, zx, simp, add, sub, mul, div, neg, eq, ne, lt, le, gt, ge, and_, or_, not_, implies, ite, \
    toreal, _const
from .astload import AstError, REPO
from .lib_std import rfun


class PyRaise(Exception):
    def __init__(self, exc, args=()):
        self.exc, self.args_ = exc, args


class PathInfeasible(Exception):
    pass


class NotAMap(Exception):
    """the loop body has effects other than appends"""


class _Ret(Exception):
    def __init__(self, v):
        self.v = v


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


class PyMod:
    """one Python source file of /repo"""

    def __init__(self, path):
        self.path = path
        full = os.path.join(REPO, path)
        try:
            self.tree = ast.parse(open(full).read(), full)
        except (OSError, SyntaxError) as e:
            raise AstError("%s: %s" % (path, e))
        self.recs, self.by_qn, self.fns, self.globals, self.enums = {}, {}, {}, {}, {}


# ------------------------------------------------------------------------------------------------ values
class Seg:
    """an item (n is None) or a run of n items f(0..n-1)"""
    __slots__ = ("n", "f")

    def __init__(self, n, f):
        self.n, self.f = n, f

    def len(self):
        return 1 if self.n is None else self.n

    def at(self, i):
        return self.f if self.n is None else self.f(i)


def items(*vs):
    return [Seg(None, v) for v in vs]


class PyList:
    def __init__(self, I, segs, kind="list"):
        self.segs, self.kind = list(segs), kind
        if kind == "list":
            I.heap.append(self)

    def state(self):
        return list(self.segs)

    def restore(self, s):
        self.segs = list(s)

    def len(self):
        n = 0
        for s in self.segs:
            n = add(n, s.len())
        return n

    def concrete(self):
        return all(s.n is None for s in self.segs)


class PyDict:
    """entries: (key, value) known; default(key) -> (has, maker) for the other keys (None: no other key)"""

    def __init__(self, I, entries=(), base=None):
        self.entries, self.base = list(entries), base
        self.seen = []        # keys of the unknown part that were looked up (materialised or found absent)
        I.heap.append(self)

    def state(self):
        return list(self.entries), list(self.seen)

    def restore(self, s):
        self.entries, self.seen = list(s[0]), list(s[1])


class PyObj:
    def __init__(self, I, cls, attrs=None, name=None):
        self.cls, self.attrs, self.name = cls, dict(attrs or {}), name
        I.heap.append(self)

    def state(self):
        return dict(self.attrs)

    def restore(self, s):
        self.attrs = dict(s)

    def __repr__(self):
        return "<%s %s>" % (self.cls.name if self.cls else "object", self.name or "")


class PyClass:
    def __init__(self, I, name, env, ns):
        self.name, self.env, self.ns = name, env, ns


class PyFunc:
    def __init__(self, name, node, env, defaults=(), kwdefaults=(), self_=None):
        self.name, self.node, self.env, self.defaults, self.kwdefaults, self.self_ = name, node, env, defaults, kwdefaults, self_

    def bind(self, o):
        return PyFunc(self.name, self.node, self.env, self.defaults, self.kwdefaults, o)


class Builtin:
    def __init__(self, name, f):
        self.name, self.f = name, f


class Module:
    def __init__(self, name):
        self.name = name


class Act:
    """an unknown callable given by the user, identified by an integer; calling it is an observable event"""

    def __init__(self, ident):
        self.ident = ident


class Opt:
    """None when c holds, otherwise v"""

    def __init__(self, isnone, v):
        self.isnone, self.v = isnone, v


class Tag:
    """a value only compared by identity (an opaque argument)"""

    def __init__(self, name):
        self.name = name


class Nd:
    """numpy array (kind 'a') or matrix (kind 'm'): shape and element function; data holds the elements when concrete"""

    def __init__(self, shape, f, kind="a"):
        self.shape, self.kind = tuple(shape), kind
        if all(isinstance(s, int) for s in shape):
            self.data = {ix: f(*ix) for ix in ndindex(self.shape)}
            self.f = None
        else:
            self.data, self.f = None, f

    def at(self, *ix):
        if self.data is not None:
            if all(isinstance(i, int) for i in ix):
                return self.data[ix]
            raise Unsupported("symbolic index into a concrete array")
        return self.f(*ix)

    def state(self):
        return None if self.data is None else dict(self.data)

    def restore(self, s):
        if s is not None:
            self.data = dict(s)


def ndindex(shape):
    if not shape:
        yield ()
        return
    for i in range(shape[0]):
        for r in ndindex(shape[1:]):
            yield (i,) + r


class Env:
    def __init__(self, parent=None, glob=None):
        self.v, self.parent = {}, parent
        self.globals_ = set()
        self.glob = glob

    def find(self, n):
        e = self
        while e is not None:
            if n in e.v:
                return e
            e = e.parent
        return None


NONE = object()


class Interp:
    def __init__(self, case, mod):
        self.case, self.ex, self.mod = case, case.ex, mod
        self.heap = []
        self.actattrs = []
        self.trace = PyList(self, [])
        self.decs = [[], 0]      # decisions (value, alternative left), position
        self.overrides = {}
        self.glob = Env()
        self.glob.glob = self.glob
        self.depth = 0
        self.cleanup = 0
        self.exec_block(mod.tree.body, self.glob)

    # ------------------------------------------------------------------ branching
    def branch(self, c):
        c = simp(zx(c)) if not isinstance(c, bool) else c
        if isinstance(c, bool):
            return c
        ex = self.ex
        ds, pos = self.decs
        if pos < len(ds):
            b = ds[pos][0]
            self.decs[1] += 1
        else:
            t, f = ex.feasible(c), ex.feasible(not_(c))
            if t and not f:
                b, alt = True, False
            elif f and not t:
                b, alt = False, False
            elif not t and not f:
                raise PathInfeasible()
            else:
                b, alt = True, True
            ds.append([b, alt])
            self.decs[1] += 1
        ex.st = ex.st.assume(zx(c if b else not_(c)))
        return b

    @staticmethod
    def next_path(ds):
        while ds and not ds[-1][1]:
            ds.pop()
        if not ds:
            return False
        ds[-1] = [False, False]
        return True

    def snapshot(self):
        return [(o, o.state()) for o in self.heap], self.ex.st, len(self.heap)

    def restore(self, s):
        for o, v in s[0]:
            o.restore(v)
        self.ex.st = s[1]
        del self.heap[s[2]:]

    # ------------------------------------------------------------------ loops
    def for_each(self, segs, body, lenient=False):
        """body(value) for every element; body may raise _Break / _Continue"""
        try:
            for s in segs:
                if s.n is None:
                    try:
                        body(s.f)
                    except _Continue:
                        pass
                else:
                    self.chunk(s.n, s.f, body)
        except _Break:
            return True
        return False

    def chunk(self, n, f, body, peel=0):
        n = simp(n) if is_sym(n) else n
        if isinstance(n, int):
            for i in range(max(n, 0)):
                if i > 200:
                    raise Unsupported("long concrete loop")
                try:
                    body(f(i))
                except _Continue:
                    pass
            return
        if not self.branch(gt(n, 0)):
            return
        snap = self.snapshot()
        saved = [list(self.decs[0]), self.decs[1]]
        try:
            self.map_body(n, f, body)
        except NotAMap:
            if peel >= 2:
                raise Unsupported("loop with effects other than appends")
            self.restore(snap)
            self.decs = saved
            try:
                body(f(0))
            except _Continue:
                pass
            self.chunk(sub(n, 1), lambda i: f(add(i, 1)), body, peel + 1)

    def map_body(self, n, f, body):
        ex = self.ex
        k = z3.Int(ex.new("k@py"))
        snap = self.snapshot()
        outer = self.decs
        paths = []
        ds = []
        try:
            while True:
                self.restore(snap)
                ex.st = ex.st.assume(zx(and_(ge(k, 0), lt(k, n))))
                npc = len(ex.st.pc)
                self.decs = [ds, 0]
                try:
                    try:
                        body(f(k))
                    except _Continue:
                        pass
                    eff = self.effects(snap)
                    paths.append((and_(*ex.st.pc[npc:]), eff))
                except PathInfeasible:
                    pass
                except (_Break, _Ret):
                    raise Unsupported("break or return inside a loop of unknown length")
                except PyRaise as e:
                    raise Unsupported("exception inside a loop of unknown length (%s)" % e.exc)
                if len(paths) > 64:
                    raise Unsupported("too many paths in a loop body")
                if not self.next_path(ds):
                    break
        finally:
            self.decs = outer
        self.restore(snap)
        if not paths:
            raise PathInfeasible()
        # merge the effects: the same lists get the same number of items on every path
        keys = {}
        for _, e in paths:
            for o, segs in e:
                keys[id(o)] = o
        for o in keys.values():
            per = []
            for c, e in paths:
                segs = [s for q, s in e if q is o]
                per.append((c, segs[0] if segs else []))
            m = len(per[0][1])
            if any(len(s) != m for _, s in per):
                raise Unsupported("a loop appends a varying number of items")
            for _, ss in per:
                if any(s.n is not None for s in ss):
                    if len(ss) != 1:
                        raise Unsupported("nested unknown runs")
            if m == 1:
                self.append_seg(o, Seg(n, self.subst_fn(k, [(c, s[0]) for c, s in per])))
            elif m == 0:
                continue
            else:
                # a group of m items per iteration
                fs = [self.subst_fn(k, [(c, s[j]) for c, s in per]) for j in range(m)]
                self.append_seg(o, Seg(n, (lambda fs: lambda i: Group([g(i) for g in fs]))(fs)))

    def append_seg(self, o, s):
        o.segs.append(s)

    def subst_fn(self, k, alts):
        def at(i):
            vals = [(c, subst(s.f if s.n is None else Run(s.n, s.f), k, i)) for c, s in alts]
            v = vals[-1][1]
            for c, w in reversed(vals[:-1]):
                v = merge(subst(c, k, i) if not isinstance(c, bool) else c, w, v)
            return v
        at(k)
        return at

    def effects(self, snap):
        out = []
        for o, old in snap[0]:
            if isinstance(o, PyList):
                new = o.segs
                if len(new) < len(old) or any(a is not b for a, b in zip(new, old)):
                    raise NotAMap()
                if len(new) > len(old):
                    out.append((o, new[len(old):]))
            elif isinstance(o, PyDict):
                if len(o.entries) != len(old[0]) and not all(any(a is b for b in o.entries) for a in old[0]):
                    raise NotAMap()
                for e in o.entries:
                    if not any(e is a for a in old[0]) and not getattr(e[1], "lazy_", False):
                        raise NotAMap()
                    if not any(e is a for a in old[0]) and isinstance(e[1], PyList) and e[1].segs != e[1].lazy_:
                        raise NotAMap()
            elif isinstance(o, PyObj):
                a = o.attrs
                if set(a) != set(old) or any(a[x] is not old[x] and not same_value(a[x], old[x]) for x in a):
                    raise NotAMap()
            elif isinstance(o, Nd):
                if o.state() != old and any(not same_value(x, old[i]) for i, x in (o.state() or {}).items()):
                    raise NotAMap()
        return out

    # ------------------------------------------------------------------ sequences
    def segs_of(self, v):
        if isinstance(v, PyList):
            return list(v.segs)
        if isinstance(v, tuple):
            return items(*v)
        if isinstance(v, Range):
            if isinstance(v.n, int) and isinstance(v.lo, int):
                return items(*range(v.lo, v.lo + max(v.n, 0)))
            return [Seg(ite(gt(v.n, 0), v.n, 0), lambda i: add(v.lo, i))]
        if isinstance(v, Nd):
            n = v.shape[0]
            if isinstance(n, int):
                return items(*[self.nd_index(v, i) for i in range(n)])
            return [Seg(n, lambda i: self.nd_index(v, i))]
        if isinstance(v, PyDict):
            if v.base is None:
                return items(*[k for k, _ in v.entries])
        if isinstance(v, str):
            return items(*v)
        raise Unsupported("iteration over %r" % (type(v).__name__,))

    def length(self, v):
        v = self.force(v)
        if is_sym(v) and z3.is_string(v):
            return z3.Length(v)
        if isinstance(v, (tuple, str)):
            return len(v)
        if isinstance(v, PyList):
            return v.len()
        if isinstance(v, Range):
            return v.n
        if isinstance(v, Nd):
            return v.shape[0]
        if isinstance(v, PyDict) and v.base is None:
            return len(v.entries)
        raise Unsupported("len of %r" % (type(v).__name__,))

    def seq_at(self, v, i):
        """element at index i (already shown in range, non negative)"""
        segs = self.segs_of(v)
        off = 0
        for n, s in enumerate(segs):
            last = n == len(segs) - 1
            if isinstance(off, int) and isinstance(i, int) and s.n is None:
                if i == off:
                    return s.f
                off += 1
                continue
            l = s.len()
            if last or self.branch(lt(i, add(off, l))):
                return s.at(sub(i, off))
            off = add(off, l)
        raise PyRaise("IndexError")

    def index(self, v, i):
        if isinstance(v, Nd):
            return self.nd_index(v, i)
        if isinstance(v, PyDict):
            e = self.dict_find(v, i)
            if e is None:
                raise PyRaise("KeyError")
            return e[1]
        if isinstance(i, slice):
            return self.slice_(v, i)
        if not (isinstance(i, int) or is_sym(i) and z3.is_int(i)):
            raise Unsupported("index %r" % (i,))
        n = self.length(v)
        if isinstance(v, str):
            return v[i]
        if not isinstance(i, int) or not isinstance(n, int):
            if self.branch(lt(i, 0)):
                i = add(i, n)
            if not self.branch(and_(ge(i, 0), lt(i, n))):
                raise PyRaise("IndexError")
        else:
            if i < 0:
                i += n
            if i < 0 or i >= n:
                raise PyRaise("IndexError")
        return self.seq_at(v, i)

    def slice_(self, v, s):
        if s.step not in (None, 1, -1):
            raise Unsupported("slice step")
        segs = self.segs_of(v)
        mk = (lambda ss: tuple(x.f for x in ss) if isinstance(v, tuple) else PyList(self, ss, getattr(v, "kind", "list")))
        if all(x.n is None for x in segs) and all(isinstance(b, int) or b is None for b in (s.start, s.stop)):
            return mk(segs[s.start:s.stop:s.step])
        if s.start in (None, 0) and s.stop is None and s.step in (None, 1):
            return mk(segs)
        if s.step == -1 and s.start is None and s.stop is None:
            out = []
            for x in reversed(segs):
                out.append(x if x.n is None else Seg(x.n, (lambda x: lambda i: x.f(sub(sub(x.n, 1), i)))(x)))
            return mk(out)
        raise Unsupported("slice of a sequence of unknown length")

    # ------------------------------------------------------------------ dictionaries
    def key_eq(self, a, b):
        if isinstance(a, PyObj) or isinstance(b, PyObj):
            return a is b
        if isinstance(a, Act) and isinstance(b, Act):
            return eq(a.ident, b.ident)
        if isinstance(a, (int, Fraction, bool)) or is_sym(a) and not z3.is_string(a):
            if isinstance(b, (int, Fraction, bool)) or is_sym(b) and not z3.is_string(b):
                return eq(a, b)
            return False
        if type(a) == type(b) and isinstance(a, (str, tuple)):
            return a == b
        if a is None or b is None:
            return a is b
        raise Unsupported("key comparison")

    def dict_find(self, d, k):
        for e in d.entries:
            c = self.key_eq(e[0], k)
            if c is True or c is not False and self.branch(c):
                return e
        if d.base is None:
            return None
        for s in d.seen:
            c = self.key_eq(s, k)
            if c is True or c is not False and self.branch(c):
                return None
        has, mk = d.base(k)
        if has is True or has is not False and self.branch(has):
            e = (k, mk())
            if isinstance(e[1], PyList):
                e[1].lazy_ = list(e[1].segs)
            d.entries.append(e)
            return e
        d.seen.append(k)
        return None

    def dict_set(self, d, k, v):
        e = self.dict_find(d, k)
        if e is not None:
            d.entries[d.entries.index(e)] = (e[0], v)
        else:
            d.entries.append((k, v))

    def dict_del(self, d, k):
        e = self.dict_find(d, k)
        if e is None:
            raise PyRaise("KeyError")
        d.entries.remove(e)
        if d.base is not None:
            d.seen.append(k)

    def contains(self, v, k):
        if isinstance(v, PyDict):
            return self.dict_find(v, k) is not None
        if isinstance(v, DictKeys):
            return self.dict_find(v.d, k) is not None
        segs = self.segs_of(v)
        if all(s.n is None for s in segs):
            for s in segs:
                c = self.key_eq(s.f, k) if not isinstance(s.f, PyList) else False
                if c is True or c is not False and self.branch(c):
                    return True
            return False
        raise Unsupported("membership in a sequence of unknown length")

    # ------------------------------------------------------------------ truth and comparison
    def truth(self, v):
        if v is None:
            return False
        if isinstance(v, (bool, int, Fraction)):
            return bool(v)
        if isinstance(v, str):
            return v != ""
        if isinstance(v, Opt):
            if self.branch(v.isnone):
                return False
            return self.truth(v.v)
        if is_sym(v):
            if z3.is_bool(v):
                return self.branch(v)
            if z3.is_string(v):
                return self.branch(v != z3.StringVal(""))
            return self.branch(ne(v, 0))
        if isinstance(v, (tuple, PyList, Range)) or isinstance(v, PyDict) and v.base is None:
            n = self.length(v)
            return n > 0 if isinstance(n, int) else self.branch(gt(n, 0))
        if isinstance(v, (PyObj, PyFunc, PyClass, Act, Builtin, Tag)):
            return True
        raise Unsupported("truth of %r" % (type(v).__name__,))

    def equal(self, a, b):
        """== as a bool or a condition"""
        if a is None or b is None or isinstance(a, Opt) or isinstance(b, Opt):
            return self.is_(a, b)
        if isinstance(a, PyObj) or isinstance(b, PyObj):
            return a is b
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        if is_scal(a) and is_scal(b):
            if strlike(a) != strlike(b):
                return False
            return eq(a, b)
        if isinstance(a, Act) and isinstance(b, Act):
            return eq(a.ident, b.ident)
        if isinstance(a, (tuple, PyList)) and isinstance(b, (tuple, PyList)):
            return value_eq(a, b)
        if isinstance(a, (PyClass, PyFunc, Builtin, Module, Tag)) or isinstance(b, (PyClass, PyFunc, Builtin, Module, Tag)):
            return a is b
        if isinstance(a, Act) or isinstance(b, Act):
            return False
        raise Unsupported("comparison of %s and %s" % (type(a).__name__, type(b).__name__))

    def is_(self, a, b):
        if isinstance(b, Opt) and not isinstance(a, Opt):
            a, b = b, a
        if isinstance(a, Opt):
            if b is None:
                return a.isnone
            if isinstance(b, Opt):
                return or_(and_(a.isnone, b.isnone), and_(not_(a.isnone), not_(b.isnone), eq(a.v, b.v)))
            return and_(not_(a.isnone), self.equal(a.v, b))
        if a is None or b is None:
            return a is b
        if is_scal(a) and is_scal(b):
            return self.equal(a, b)
        if isinstance(a, Act) and isinstance(b, Act):
            return eq(a.ident, b.ident)
        return a is b

    # ------------------------------------------------------------------ calls
    def call(self, f, args, kw=None):
        kw = dict(kw or {})
        if isinstance(f, Builtin):
            return f.f(args, kw)
        if isinstance(f, Act):
            if kw:
                raise Unsupported("keyword arguments of an action")
            self.trace.segs.append(Seg(None, ("call", f.ident, tuple(args))))
            return Tag("result")
        if isinstance(f, PyClass):
            o = PyObj(self, f)
            init = self.class_attr(f, "__init__")
            if init is not None:
                self.call(init.bind(o), args, kw)
            elif args:
                raise PyRaise("TypeError")
            return o
        if isinstance(f, PyFunc):
            ov = self.overrides.get(f.name)
            if ov is not None and self.depth > 0:
                return ov(self, f.self_, args, kw)
            return self.call_fn(f, args, kw)
        if isinstance(f, PyObj):
            m = self.class_attr(f.cls, "__call__")
            if m is not None:
                return self.call(m.bind(f), args, kw)
            raise PyRaise("TypeError")
        raise Unsupported("call of %s" % getattr(f, "name", type(f).__name__))

    def call_fn(self, f, args, kw):
        if self.depth > 40:
            raise Unsupported("recursion")
        a = f.node.args
        if a.posonlyargs:
            raise Unsupported("positional-only parameters")
        env = Env(f.env, self.glob)
        av = list(args)
        if f.self_ is not None:
            av.insert(0, f.self_)
        ps = [p.arg for p in a.args]
        rest = None
        if any(isinstance(x, Star) for x in av):
            # a starred sequence of unknown length: only as the tail of a *args parameter
            i = [isinstance(x, Star) for x in av].index(True)
            if i != len(av) - 1 or i < len(ps) or not a.vararg:
                raise Unsupported("starred argument of unknown length")
            rest = av[i].segs
            av = av[:i]
        for p, v in zip(ps, av):
            env.v[p] = v
        extra = av[len(ps):]
        if extra or rest is not None or a.vararg:
            if not a.vararg:
                raise PyRaise("TypeError")
            env.v[a.vararg.arg] = tuple(extra) if rest is None else PyList(self, items(*extra) + rest, "tuple")
        nd = len(f.defaults)
        for i, p in enumerate(ps):
            if p not in env.v:
                if p in kw:
                    env.v[p] = kw.pop(p)
                elif i >= len(ps) - nd:
                    env.v[p] = f.defaults[i - (len(ps) - nd)]
                else:
                    raise PyRaise("TypeError")
            elif p in kw:
                raise PyRaise("TypeError")
        for p, d in zip(a.kwonlyargs, f.kwdefaults):
            env.v[p.arg] = kw.pop(p.arg) if p.arg in kw else d
        if kw:
            raise PyRaise("TypeError")
        env.v.update()
        if not isinstance(f.node, ast.Lambda):
            self.ex.used_fns[f.name] = (os.path.join(REPO, self.mod.path), f.node.lineno)
        self.depth += 1
        try:
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body, env)
            env.locals_ = assigned(f.node)
            self.exec_block(f.node.body, env)
        except _Ret as r:
            return r.v
        finally:
            self.depth -= 1
        return None

    # ------------------------------------------------------------------ statements
    def exec_block(self, body, env):
        for s in body:
            self.stmt(s, env)

    def stmt(self, s, env):
        k = type(s).__name__
        m = getattr(self, "s_" + k, None)
        if m is None:
            raise Unsupported("Python statement " + k)
        return m(s, env)

    def s_Pass(self, s, env):
        pass

    def s_Expr(self, s, env):
        self.ev(s.value, env)

    def s_Import(self, s, env):
        for a in s.names:
            env.v[(a.asname or a.name).split(".")[0]] = Module(a.name if a.asname else a.name.split(".")[0])

    def s_ImportFrom(self, s, env):
        for a in s.names:
            env.v[a.asname or a.name] = self.module_attr(s.module or "", a.name)

    def s_Assign(self, s, env):
        v = self.ev(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def s_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, env), env)

    def s_AugAssign(self, s, env):
        old = self.ev(ast_load(s.target), env)
        r = self.ev(s.value, env)
        if isinstance(old, PyList) and old.kind == "list" and isinstance(s.op, ast.Add):
            old.segs.extend(self.segs_of(r))
            return
        if isinstance(old, Nd) and not isinstance(r, Nd) or isinstance(old, Nd) and r.shape == old.shape:
            v = self.binop(type(s.op).__name__, old, r)
            if isinstance(v, Nd) and v.shape == old.shape and old.data is not None:
                old.data = dict(v.data)
                return
        self.assign(s.target, self.binop(type(s.op).__name__, old, r), env)

    def s_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                o = self.ev(t.value, env)
                if isinstance(o, PyDict):
                    self.dict_del(o, self.ev(t.slice, env))
                    continue
            elif isinstance(t, ast.Name) and t.id in env.v:
                del env.v[t.id]
                continue
            raise Unsupported("del")

    def s_Global(self, s, env):
        env.globals_ |= set(s.names)

    def s_Nonlocal(self, s, env):
        raise Unsupported("nonlocal")

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            if t.id in env.globals_:
                self.glob.v[t.id] = v
            else:
                env.v[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if any(isinstance(x, ast.Starred) for x in t.elts):
                raise Unsupported("starred assignment")
            n = self.length(v)
            if isinstance(n, int):
                if n != len(t.elts):
                    raise PyRaise("ValueError")
            elif not self.branch(eq(n, len(t.elts))):
                raise PyRaise("ValueError")
            vals = [self.index(v, i) for i in range(len(t.elts))]
            for x, y in zip(t.elts, vals):
                self.assign(x, y, env)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            if isinstance(o, PyObj):
                o.attrs[t.attr] = v
            elif isinstance(o, PyClass):
                o.ns[t.attr] = v
            elif isinstance(o, Act):
                self.actattrs.insert(0, (o.ident, t.attr, v))
            else:
                raise Unsupported("attribute assignment to %s" % type(o).__name__)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            i = self.ev(t.slice, env)
            if isinstance(o, PyDict):
                self.dict_set(o, i, v)
            elif isinstance(o, Nd):
                self.nd_assign(o, i, v)
            elif isinstance(o, PyList) and o.kind == "list" and isinstance(i, int) and o.concrete():
                if i < 0:
                    i += len(o.segs)
                if not 0 <= i < len(o.segs):
                    raise PyRaise("IndexError")
                o.segs[i] = Seg(None, v)
            else:
                raise Unsupported("item assignment")
        else:
            raise Unsupported("assignment target")

    def s_Return(self, s, env):
        raise _Ret(self.ev(s.value, env) if s.value is not None else None)

    def s_Break(self, s, env):
        raise _Break()

    def s_Continue(self, s, env):
        raise _Continue()

    def s_If(self, s, env):
        self.exec_block(s.body if self.truth(self.ev(s.test, env)) else s.orelse, env)

    def s_Assert(self, s, env):
        if not self.truth(self.ev(s.test, env)):
            raise PyRaise("AssertionError")

    def s_Raise(self, s, env):
        v = s.exc
        n = v.func.id if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) else v.id if isinstance(v, ast.Name) else "Exception"
        raise PyRaise(n)

    def s_Try(self, s, env):
        if s.finalbody:
            raise Unsupported("finally")
        try:
            self.exec_block(s.body, env)
        except PyRaise as e:
            for h in s.handlers:
                names = [x.id for x in ([h.type] if isinstance(h.type, ast.Name) else h.type.elts if h.type else [])]
                sup = {"KeyError": ("LookupError",), "IndexError": ("LookupError",)}.get(e.exc, ())
                if h.type is None or e.exc in names or "Exception" in names or any(x in names for x in sup):
                    if h.name:
                        env.v[h.name] = Tag("exception")
                    self.exec_block(h.body, env)
                    return
            raise
        else:
            self.exec_block(s.orelse, env)

    def s_For(self, s, env):
        it = self.ev(s.iter, env)

        def body(v):
            self.assign(s.target, v, env)
            self.exec_block(s.body, env)
        before = dict(env.v)
        broke = self.for_each(self.iter_segs(it), body)
        # names assigned in a loop of unknown length hold no usable value afterwards
        if any(x.n is not None for x in self.iter_segs(it)):
            for n in assigned_in(s):
                if n in env.v and (n not in before or env.v[n] is not before[n]):
                    env.v[n] = Havoc()
        if not broke:
            self.exec_block(s.orelse, env)

    def iter_segs(self, it):
        if isinstance(it, DictKeys):
            return self.segs_of(it.d)
        return self.segs_of(it)

    def s_While(self, s, env):
        n = 0
        # a counting loop whose trip count is symbolic has no map form here
        while self.truth(self.ev(s.test, env)):
            n += 1
            if n > 60:
                raise Unsupported("while loop of unknown length")
            try:
                self.exec_block(s.body, env)
            except _Break:
                return
            except _Continue:
                pass
        self.exec_block(s.orelse, env)

    def s_FunctionDef(self, s, env):
        f = self.mkfunc(s, env)
        v = f
        for d in reversed(s.decorator_list):
            dv = self.ev(d, env)
            v = self.call(dv, [v])
        env.v[s.name] = v

    def mkfunc(self, s, env):
        a = s.args
        qual = getattr(env, "clsname", None)
        name = (qual + "." if qual else "") + getattr(s, "name", "<lambda>")
        fe = env
        while getattr(fe, "clsname", None):
            fe = fe.parent
        return PyFunc(name, s, fe, [self.ev(d, env) for d in a.defaults], [self.ev(d, env) if d is not None else None for d in a.kw_defaults])

    def s_ClassDef(self, s, env):
        e = Env(env, self.glob)
        e.clsname = s.name
        self.exec_block(s.body, e)
        bases = [self.ev(b, env) for b in s.bases]
        c = PyClass(self, s.name, env, e.v)
        c.bases = [b for b in bases if isinstance(b, PyClass)]
        env.v[s.name] = c

    # ------------------------------------------------------------------ expressions
    def ev(self, e, env):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("Python expression " + type(e).__name__)
        return m(e, env)

    def e_Constant(self, e, env):
        v = e.value
        if isinstance(v, float):
            return Fraction(repr(v)) if v == v and abs(v) != float("inf") else Tag("inf")
        return v

    def e_Name(self, e, env):
        x = env
        while x is not None:
            if e.id in x.v:
                v = x.v[e.id]
                if isinstance(v, Havoc):
                    raise Unsupported("value of %s after a loop of unknown length" % e.id)
                return v
            if e.id in getattr(x, "locals_", ()):
                raise PyRaise("UnboundLocalError")
            x = x.parent
        b = self.builtin(e.id)
        if b is not None:
            return b
        raise Unsupported("name " + e.id)

    def e_Tuple(self, e, env):
        return self.seq_display(e.elts, env, True)

    def e_List(self, e, env):
        return self.seq_display(e.elts, env, False)

    def seq_display(self, elts, env, tup):
        segs = []
        for x in elts:
            if isinstance(x, ast.Starred):
                segs += self.segs_of(self.ev(x.value, env))
            else:
                segs.append(Seg(None, self.ev(x, env)))
        if tup:
            if all(s.n is None for s in segs):
                return tuple(s.f for s in segs)
            return PyList(self, segs, "tuple")
        return PyList(self, segs)

    def e_Dict(self, e, env):
        d = PyDict(self)
        for k, v in zip(e.keys, e.values):
            self.dict_set(d, self.ev(k, env), self.ev(v, env))
        return d

    def e_Lambda(self, e, env):
        return self.mkfunc(e, env)

    def e_IfExp(self, e, env):
        return self.ev(e.body if self.truth(self.ev(e.test, env)) else e.orelse, env)

    def e_JoinedStr(self, e, env):
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                self.ev(v.value, env)
        return z3.String(self.ex.new("fstr"))

    def e_BoolOp(self, e, env):
        isand = isinstance(e.op, ast.And)
        for x in e.values[:-1]:
            v = self.ev(x, env)
            if self.truth(v) != isand:
                return v if not (is_sym(v) or isinstance(v, bool)) else (not isand)
        return self.ev(e.values[-1], env)

    def e_UnaryOp(self, e, env):
        v = self.ev(e.operand, env)
        if isinstance(e.op, ast.Not):
            return not self.truth(v)
        if isinstance(v, Nd):
            return Nd(v.shape, lambda *ix: neg(v.at(*ix)), v.kind) if isinstance(e.op, ast.USub) else v
        if isinstance(e.op, ast.USub) and is_scal(v):
            return neg(v)
        if isinstance(e.op, ast.UAdd):
            return v
        raise Unsupported("unary operator")

    def e_Compare(self, e, env):
        l = self.ev(e.left, env)
        res = True
        for op, r in zip(e.ops, e.comparators):
            r = self.ev(r, env)
            res = self.cmp(type(op).__name__, l, r)
            if len(e.ops) > 1 and not self.truth(res):
                return False
            l = r
        return res

    def cmp(self, op, a, b):
        if op in ("Eq", "NotEq"):
            r = self.equal(a, b)
            return r if op == "Eq" else not_(r)
        if op in ("Is", "IsNot"):
            r = self.is_(a, b)
            return r if op == "Is" else not_(r)
        if op in ("In", "NotIn"):
            r = self.contains(b, a)
            return r if op == "In" else (not r)
        if is_scal(a) and is_scal(b):
            return {"Lt": lt, "LtE": le, "Gt": gt, "GtE": ge}[op](a, b)
        raise PyRaise("TypeError") if isinstance(a, PyObj) or isinstance(b, PyObj) else Unsupported("comparison")

    def e_BinOp(self, e, env):
        return self.binop(type(e.op).__name__, self.ev(e.left, env), self.ev(e.right, env))

    def force(self, v):
        if isinstance(v, Opt):
            if self.branch(v.isnone):
                raise PyRaise("TypeError")
            return v.v
        return v

    def binop(self, op, a, b):
        a, b = self.force(a), self.force(b)
        if isinstance(a, Nd) or isinstance(b, Nd):
            return self.nd_binop(op, a, b)
        if strlike(a) or strlike(b):
            if op == "Add" and strlike(a) and strlike(b):
                return a + b if isinstance(a, str) and isinstance(b, str) else z3.Concat(zx(a), zx(b))
            if op == "Mod" and strlike(a):
                return z3.String(self.ex.new("fmt"))
            if isinstance(a, Opt) or isinstance(b, Opt):
                raise Unsupported("string operation on an optional")
            raise PyRaise("TypeError")
        if isinstance(a, (tuple, PyList)) and isinstance(b, (tuple, PyList)) and op == "Add":
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            return PyList(self, self.segs_of(a) + self.segs_of(b), "list" if getattr(a, "kind", "tuple") == "list" else "tuple")
        if isinstance(a, (tuple, PyList)) and isinstance(b, int) and op == "Mult":
            return a * b if isinstance(a, tuple) else PyList(self, self.segs_of(a) * b, a.kind)
        if not (is_scal(a) and is_scal(b)):
            raise Unsupported("operator %s on %s, %s" % (op, type(a).__name__, type(b).__name__))
        if op == "Add":
            return add(a, b)
        if op == "Sub":
            return sub(a, b)
        if op == "Mult":
            return mul(a, b)
        if op == "Div":
            z = eq(b, 0)
            if z is True or z is not False and not self.ex.known(not_(z)) and self.branch(z):
                raise PyRaise("ZeroDivisionError")
            return div(toreal(a), toreal(b))
        if op == "Pow" and isinstance(b, int) and 0 <= b <= 6:
            if b == 0:
                return 1 if not (is_sym(a) and z3.is_real(a) or isinstance(a, Fraction)) else Fraction(1)
            r = a
            for _ in range(b - 1):
                r = mul(r, a)
            return r
        if op == "Pow" and isinstance(b, Fraction) and b == Fraction(1, 2):
            return self.real("sqrt", a)
        if op in ("FloorDiv", "Mod") and isinstance(a, int) and isinstance(b, int) and b:
            return a // b if op == "FloorDiv" else a % b
        if op in ("FloorDiv", "Mod") and isinstance(b, int) and b > 0 and is_sym(a) and z3.is_int(a):
            return a / b if op == "FloorDiv" else a % b
        raise Unsupported("operator " + op)

    def real(self, f, *args):
        return rfun(self.ex, f, *args)

    def e_Subscript(self, e, env):
        return self.index(self.ev(e.value, env), self.ev(e.slice, env))

    def e_Slice(self, e, env):
        return slice(*[self.ev(x, env) if x is not None else None for x in (e.lower, e.upper, e.step)])

    def e_ListComp(self, e, env):
        return self.comp(e, env)

    def e_GeneratorExp(self, e, env):
        return self.comp(e, env)

    def comp(self, e, env):
        out = PyList(self, [])

        def level(i, en):
            if i == len(e.generators):
                out.segs.append(Seg(None, self.ev(e.elt, en)))
                return
            g = e.generators[i]

            def body(v):
                e2 = Env(en, self.glob)
                self.assign(g.target, v, e2)
                for c in g.ifs:
                    if not self.truth(self.ev(c, e2)):
                        return
                level(i + 1, e2)
            self.for_each(self.iter_segs(self.ev(g.iter, en)), body)
        level(0, env)
        return out

    def e_Call(self, e, env):
        f = self.ev(e.func, env)
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, env)
                segs = self.segs_of(v) if not isinstance(v, Tag) else None
                if segs is None:
                    args.append(v)
                elif all(s.n is None for s in segs):
                    args += [s.f for s in segs]
                else:
                    args.append(Star(segs))
            else:
                args.append(self.ev(a, env))
        for k in e.keywords:
            if k.arg is None:
                raise Unsupported("**kwargs")
            kw[k.arg] = self.ev(k.value, env)
        return self.call(f, args, kw)

    # ------------------------------------------------------------------ attributes
    def class_attr(self, c, n):
        if n in c.ns:
            return c.ns[n]
        for b in getattr(c, "bases", []):
            r = self.class_attr(b, n)
            if r is not None:
                return r
        return None

    def e_Attribute(self, e, env):
        return self.getattr(self.ev(e.value, env), e.attr)

    def getattr(self, o, n):
        if isinstance(o, Module):
            return self.module_attr(o.name, n)
        if isinstance(o, PyObj):
            if n in o.attrs:
                return o.attrs[n]
            if n == "__class__":
                return o.cls
            v = self.class_attr(o.cls, n) if o.cls else None
            if isinstance(v, PyFunc):
                return v.bind(o)
            if v is None and not (o.cls and n in o.cls.ns):
                if n == "__dict__":
                    return AttrNames(o)
                if n == "__doc__":
                    return None
                raise PyRaise("AttributeError")
            return v
        if isinstance(o, PyClass):
            v = self.class_attr(o, n)
            if v is None and n not in o.ns:
                raise PyRaise("AttributeError")
            return v
        if isinstance(o, Act):
            ex = self.ex
            for i, a, v in self.actattrs:
                if a == n and self.branch(eq(i, o.ident)):
                    return v
            if n == "__doc__":
                return Opt(ex.uf("nodoc", (o.ident,), "bool"), ex.uf("doc", (o.ident,), "str"))
            if n == "__dict__":
                return AttrNames(o)
            if n == "functor":
                if not self.branch(ex.uf("hasfunctor", (o.ident,), "bool")):
                    raise PyRaise("AttributeError")
                return Act(ex.uf("functor", (o.ident,), "int"))
            raise Unsupported("attribute %s of an action" % n)
        if isinstance(o, Nd):
            return self.nd_attr(o, n)
        if isinstance(o, PyDict):
            return self.dict_attr(o, n)
        if isinstance(o, PyList):
            return self.list_attr(o, n)
        if strlike(o) and n in ("format", "strip", "rstrip", "join", "upper", "lower"):
            return Builtin(n, lambda a, k: z3.String(self.ex.new("str")))
        if isinstance(o, PyFunc) and n == "__doc__":
            return ast.get_docstring(o.node) if not isinstance(o.node, ast.Lambda) else None
        raise Unsupported("attribute %s of %s" % (n, type(o).__name__))

    def dict_attr(self, d, n):
        def get(a, k):
            e = self.dict_find(d, a[0])
            return e[1] if e is not None else (a[1] if len(a) > 1 else None)

        def setdefault(a, k):
            e = self.dict_find(d, a[0])
            if e is None:
                d.entries.append((a[0], a[1] if len(a) > 1 else None))
                return d.entries[-1][1]
            return e[1]

        def pop(a, k):
            e = self.dict_find(d, a[0])
            if e is None:
                if len(a) > 1:
                    return a[1]
                raise PyRaise("KeyError")
            self.dict_del(d, a[0])
            return e[1]
        t = {"get": get, "setdefault": setdefault, "pop": pop, "keys": lambda a, k: DictKeys(d), "__contains__": lambda a, k: self.contains(d, a[0])}
        if n in t:
            return Builtin(n, t[n])
        raise PyRaise("AttributeError") if n in ("iteritems", "has_key") else Unsupported("dict." + n)

    def list_attr(self, l, n):
        def append(a, k):
            l.segs.append(Seg(None, a[0]))

        def extend(a, k):
            l.segs.extend(self.segs_of(a[0]))

        def insert(a, k):
            if a[0] != 0 and not l.concrete():
                raise Unsupported("insert")
            l.segs.insert(a[0] if isinstance(a[0], int) else 10 ** 9, Seg(None, a[1]))

        def pop(a, k):
            i = a[0] if a else -1
            if i not in (0, -1) or not l.segs or l.segs[i].n is not None:
                raise Unsupported("pop")
            return l.segs.pop(i).f

        def copy(a, k):
            return PyList(self, l.segs)

        def clear(a, k):
            l.segs = []
        t = {"append": append, "extend": extend, "insert": insert, "pop": pop, "copy": copy, "clear": clear}
        if n in t and (l.kind == "list"):
            return Builtin(n, t[n])
        raise Unsupported("%s.%s" % (l.kind, n))

    # ------------------------------------------------------------------ builtins and libraries
    def builtin(self, n):
        I = self

        def rng(a, k):
            lo, hi = (0, a[0]) if len(a) == 1 else (a[0], a[1])
            if len(a) == 3 and a[2] != 1:
                if all(isinstance(x, int) for x in a):
                    return tuple(range(*a))
                raise Unsupported("range step")
            return Range(lo, sub(hi, lo))

        def isinst(a, k):
            cs = a[1] if isinstance(a[1], tuple) else (a[1],)
            return any(I.isinstance1(a[0], c) for c in cs)

        def tolist(a, k, kind="list"):
            if not a:
                return PyList(I, []) if kind == "list" else ()
            segs = I.iter_segs(a[0])
            if kind == "tuple" and all(s.n is None for s in segs):
                return tuple(s.f for s in segs)
            return PyList(I, segs, kind)

        def mapf(a, k):
            out = PyList(I, [])
            if len(a) != 2:
                raise Unsupported("map")
            I.for_each(I.iter_segs(a[1]), lambda v: out.segs.append(Seg(None, I.call(a[0], [v]))))
            return out

        def enum(a, k):
            st = a[1] if len(a) > 1 else k.get("start", 0)
            off, out = st, []
            for s in I.iter_segs(a[0]):
                if s.n is None:
                    out.append(Seg(None, (off, s.f)))
                    off = add(off, 1)
                else:
                    out.append(Seg(s.n, (lambda s, off: lambda i: (add(off, i), s.f(i)))(s, off)))
                    off = add(off, s.n)
            return PyList(I, out, "tuple")

        def zipf(a, k):
            ss = [I.iter_segs(x) for x in a]
            if all(all(s.n is None for s in x) for x in ss):
                return PyList(I, items(*[tuple(s.f for s in t) for t in zip(*ss)]), "tuple")
            raise Unsupported("zip")

        def absf(a, k):
            return ite(ge(a[0], 0), a[0], neg(a[0]))

        def sumf(a, k):
            segs = I.iter_segs(a[0])
            if all(s.n is None for s in segs):
                r = a[1] if len(a) > 1 else 0
                for s in segs:
                    r = I.binop("Add", r, s.f)
                return r
            raise Unsupported("sum")

        def call(a, k):
            return isinstance(a[0], (PyFunc, Act, PyClass, Builtin)) or isinstance(a[0], PyObj) and I.class_attr(a[0].cls, "__call__") is not None

        def hasattr_(a, k):
            try:
                I.getattr(a[0], a[1])
                return True
            except PyRaise:
                return False

        def getattr_(a, k):
            try:
                return I.getattr(a[0], a[1])
            except PyRaise:
                if len(a) > 2:
                    return a[2]
                raise

        def rev(a, k):
            return I.slice_(a[0] if not isinstance(a[0], Range) else PyList(I, I.segs_of(a[0])), slice(None, None, -1))

        def minmax(op):
            def f(a, k):
                vs = [s.f for s in I.segs_of(a[0])] if len(a) == 1 else a
                r = vs[0]
                for v in vs[1:]:
                    r = ite(op(v, r), v, r)
                return r
            return f
        t = {
            "len": lambda a, k: I.length(a[0]), "range": rng, "isinstance": isinst, "list": tolist, "tuple": lambda a, k: tolist(a, k, "tuple"),
            "dict": lambda a, k: PyDict(I) if not a and not k else I.unsup("dict(...)"), "str": lambda a, k: z3.String(I.ex.new("str")) if a and not isinstance(a[0], str) else (a[0] if a else ""),
            "repr": lambda a, k: z3.String(I.ex.new("str")), "print": lambda a, k: None, "float": lambda a, k: I.tofloat(a[0]), "abs": absf, "map": mapf,
            "enumerate": enum, "zip": zipf, "callable": call, "hasattr": hasattr_, "getattr": getattr_, "reversed": rev, "sum": sumf,
            "bool": lambda a, k: I.truth(a[0]), "min": minmax(lt), "max": minmax(gt), "iter": lambda a, k: a[0], "int": lambda a, k: I.toint(a[0]),
            "vars": lambda a, k: I.getattr(a[0], "__dict__"), "sorted": lambda a, k: I.unsup("sorted"),
        }
        return Builtin(n, t[n]) if n in t else None

    def unsup(self, m):
        raise Unsupported(m)

    def tofloat(self, v):
        if isinstance(v, Nd):
            v = list(v.data.values())[0]
        return toreal(v)

    def toint(self, v):
        if isinstance(v, int) or is_sym(v) and z3.is_int(v):
            return v
        raise Unsupported("int()")

    def isinstance1(self, v, c):
        if isinstance(c, Builtin):
            n = c.name
            if n == "tuple":
                return isinstance(v, tuple) or isinstance(v, PyList) and v.kind == "tuple"
            if n == "list":
                return isinstance(v, PyList) and v.kind == "list"
            if n == "str":
                if isinstance(v, Opt):
                    return not self.branch(v.isnone)
                return strlike(v)
            if n == "dict":
                return isinstance(v, PyDict)
            if n in ("int", "float"):
                isint = isinstance(v, int) or is_sym(v) and z3.is_int(v)
                isfl = isinstance(v, Fraction) or is_sym(v) and z3.is_real(v)
                return isint if n == "int" else isfl
        if isinstance(c, PyClass):
            return isinstance(v, PyObj) and (v.cls is c or c in getattr(v.cls, "bases", []))
        raise Unsupported("isinstance")

    def module_attr(self, m, n):
        I = self
        if m in ("numpy", "math", "numpy.linalg", "random", "numpy.matlib", "np"):
            if n == "linalg":
                return Module("numpy.linalg")
            if n == "pi":
                return self.pi()
            if n in ("sin", "cos", "sqrt", "tan", "exp", "acos", "asin", "arccos", "arcsin"):
                g = {"arccos": "acos", "arcsin": "asin"}.get(n, n)

                def f(a, k):
                    if isinstance(a[0], Nd):
                        return Nd(a[0].shape, lambda *ix: I.real(g, a[0].at(*ix)), a[0].kind)
                    return I.real(g, a[0])
                return Builtin(n, f)
            if n in ("atan2", "arctan2"):
                return Builtin(n, lambda a, k: I.real("atan2", a[0], a[1]))
            if n == "hypot":
                return Builtin(n, lambda a, k: I.real("sqrt", add(mul(a[0], a[0]), mul(a[1], a[1]))))
            if n in ("fabs", "abs", "absolute"):
                return Builtin(n, lambda a, k: ite(ge(a[0], 0), a[0], neg(a[0])))
            if n == "square":
                return Builtin(n, lambda a, k: I.binop("Mult", a[0], a[0]) if not isinstance(a[0], Nd) else I.unsup("square"))
            if n == "random":
                if m == "numpy":
                    return Module("numpy.random")
                return Builtin(n, lambda a, k: I.ex.fresh("real", "random"))
            if n in ("array", "asarray", "matrix", "mat", "asmatrix"):
                kind = "a" if "array" in n else "m"
                return Builtin(n, lambda a, k: I.nd_make(a[0], kind))
            if n in ("eye", "identity"):
                return Builtin(n, lambda a, k: Nd((a[0], a[0]), lambda i, j: Fraction(int(i == j))) if isinstance(a[0], int) else I.unsup("eye"))
            if n in ("zeros", "ones"):
                def z(a, k):
                    sh = a[0] if isinstance(a[0], tuple) else tuple(s.f for s in a[0].segs) if isinstance(a[0], PyList) else (a[0],)
                    return Nd(sh, lambda *ix: Fraction(int(n == "ones")))
                return Builtin(n, z)
            if n in ("dot", "matmul"):
                return Builtin(n, lambda a, k: I.nd_matmul(I.nd_make(a[0], "a"), I.nd_make(a[1], "a")))
            if n == "inner":
                def inner(a, k):
                    x, y = I.nd_make(a[0], "a"), I.nd_make(a[1], "a")
                    if len(x.shape) == 1 and len(y.shape) == 1:
                        return I.nd_matmul(x, y)
                    if len(x.shape) == 2 and len(y.shape) == 2:
                        return I.nd_matmul(x, I.nd_T(y), kind=x.kind)
                    raise Unsupported("inner")
                return Builtin(n, inner)
            if n == "norm":
                def norm(a, k):
                    if len(a) > 1 or k:
                        raise Unsupported("norm with arguments")
                    x = I.nd_make(a[0], "a")
                    if x.data is None:
                        raise Unsupported("norm of a vector of unknown size")
                    s = Fraction(0)
                    for v in x.data.values():
                        s = add(s, mul(toreal(v), toreal(v)))
                    r = I.real("sqrt", s)
                    if getattr(I, "norm_nonzero", False):
                        I.ex.st = I.ex.st.assume(zx(gt(r, 0)))
                    return r
                return Builtin(n, norm)
            if n == "cross":
                def cross(a, k):
                    x, y = I.nd_make(a[0], "a"), I.nd_make(a[1], "a")
                    if x.shape == (3,) == y.shape:
                        d = lambda i, j: sub(mul(x.at(i), y.at(j)), mul(x.at(j), y.at(i)))
                        return Nd((3,), lambda i: (d(1, 2), d(2, 0), d(0, 1))[i])
                    raise Unsupported("cross")
                return Builtin(n, cross)
            if n == "transpose":
                return Builtin(n, lambda a, k: I.nd_T(I.nd_make(a[0], "a")))
            if m == "numpy.random":
                raise Unsupported("numpy.random." + n)
        if m == "functools" and n == "wraps":
            return Builtin("wraps", lambda a, k: Builtin("deco", lambda b, q: b[0]))
        return Foreign(m + "." + n)

    def pi(self):
        p = z3.Real("pi")
        self.ex.fact(z3.And(p > z3.RealVal("3.14159265"), p < z3.RealVal("3.14159266")))
        return p

    # ------------------------------------------------------------------ numpy arrays
    def nd_make(self, v, kind):
        if isinstance(v, Nd):
            if kind == "m" and len(v.shape) == 1:
                return Nd((1,) + v.shape, lambda i, j: v.at(j), "m")
            r = Nd(v.shape, v.at, "m" if kind == "m" else v.kind if v.kind == "m" else "a")
            return self.reg(r)
        segs = self.segs_of(v)
        n = 0
        for s in segs:
            n = add(n, s.len())
        if not isinstance(n, int):
            if len(segs) == 1 and is_scal(segs[0].f(0)):
                s = segs[0]
                return self.reg(Nd((n,), s.f, "a") if kind == "a" else Nd((1, n), lambda i, j: s.f(j), "m"))
            raise Unsupported("array from a nested sequence of unknown length")
        if all(is_scal(s.f) for s in segs):
            return self.reg(Nd((n,), lambda i: segs[i].f, "a") if kind == "a" else Nd((1, n), lambda i, j: segs[j].f, "m"))
        rows = [self.nd_make(s.f, "a") for s in segs]
        sh = rows[0].shape
        if any(r.shape != sh for r in rows):
            raise PyRaise("ValueError")
        if kind == "m" and len(sh) == 2:
            raise PyRaise("ValueError")
        return self.reg(Nd((n,) + sh, lambda i, *r: rows[i].at(*r), kind))

    def reg(self, a):
        self.heap.append(a)
        return a

    def nd_T(self, a):
        if len(a.shape) == 1:
            return a
        return Nd(a.shape[::-1], lambda i, j: a.at(j, i), a.kind)

    def nd_matmul(self, a, b, kind=None):
        if len(a.shape) == 1 and len(b.shape) == 1:
            return self.dotsum(a.shape[0], b.shape[0], lambda k: mul(a.at(k), b.at(k)))
        kind = kind or ("m" if "m" in (a.kind, b.kind) else "a")
        if len(a.shape) == 2 and len(b.shape) == 2:
            return Nd((a.shape[0], b.shape[1]), lambda i, j: self.dotsum(a.shape[1], b.shape[0], lambda k: mul(a.at(i, k), b.at(k, j))), kind)
        if len(a.shape) == 2:
            return Nd((a.shape[0],), lambda i: self.dotsum(a.shape[1], b.shape[0], lambda k: mul(a.at(i, k), b.at(k))), "a")
        return Nd((b.shape[1],), lambda j: self.dotsum(a.shape[0], b.shape[0], lambda k: mul(a.at(k), b.at(k, j))), "a")

    def dotsum(self, n, m, f):
        if not isinstance(n, int) or not isinstance(m, int):
            raise Unsupported("product of arrays of unknown size")
        if n != m:
            raise PyRaise("ValueError")
        r = Fraction(0)
        for k in range(n):
            r = add(r, f(k))
        return r

    def nd_binop(self, op, a, b):
        if op == "MatMult":
            return self.nd_matmul(self.nd_make(a, "a"), self.nd_make(b, "a"))
        if isinstance(a, (PyList, tuple)):
            a = self.nd_make(a, "a")
        if isinstance(b, (PyList, tuple)):
            b = self.nd_make(b, "a")
        if op == "Mult" and isinstance(a, Nd) and isinstance(b, Nd) and "m" in (a.kind, b.kind):
            a2 = a if len(a.shape) == 2 else self.nd_make(a, "m")
            b2 = b if len(b.shape) == 2 else self.nd_make(b, "m")
            return self.nd_matmul(a2, b2, "m")
        f = {"Add": add, "Sub": sub, "Mult": mul, "Div": lambda x, y: div(toreal(x), toreal(y))}.get(op)
        if op == "Pow" and isinstance(b, int) and isinstance(a, Nd) and a.kind == "a":
            return Nd(a.shape, lambda *ix: self.binop("Pow", a.at(*ix), b), a.kind)
        if f is None:
            raise Unsupported("array operator " + op)
        if isinstance(a, Nd) and isinstance(b, Nd):
            k = "m" if "m" in (a.kind, b.kind) else "a"
            if a.shape == b.shape:
                return Nd(a.shape, lambda *ix: f(a.at(*ix), b.at(*ix)), k)
            if all(isinstance(x, int) for x in a.shape + b.shape):
                n = max(len(a.shape), len(b.shape))
                sa, sb = (1,) * (n - len(a.shape)) + a.shape, (1,) * (n - len(b.shape)) + b.shape
                if any(x != y and 1 not in (x, y) for x, y in zip(sa, sb)):
                    raise PyRaise("ValueError")
                sh = tuple(max(x, y) for x, y in zip(sa, sb))
                ga = lambda ix: a.at(*[0 if s == 1 else i for i, s in zip(ix, sa)][n - len(a.shape):])
                gb = lambda ix: b.at(*[0 if s == 1 else i for i, s in zip(ix, sb)][n - len(b.shape):])
                return Nd(sh, lambda *ix: f(ga(ix), gb(ix)), k)
            raise Unsupported("broadcast")
        if isinstance(a, Nd):
            return Nd(a.shape, lambda *ix: f(a.at(*ix), b), a.kind)
        return Nd(b.shape, lambda *ix: f(a, b.at(*ix)), b.kind)

    def nd_sel(self, n, i):
        """-> list of indices or ('one', i)"""
        if isinstance(i, slice):
            if not isinstance(n, int):
                raise Unsupported("slice of an array of unknown size")
            return list(range(n))[i]
        if isinstance(i, int) and isinstance(n, int):
            if i < 0:
                i += n
            if not 0 <= i < n:
                raise PyRaise("IndexError")
            return i
        if is_sym(n) or is_sym(i):
            if not self.ex.known(and_(ge(i, 0), lt(i, n))):
                if self.branch(lt(i, 0)):
                    i = add(i, n)
                if not self.branch(and_(ge(i, 0), lt(i, n))):
                    raise PyRaise("IndexError")
            return i
        raise Unsupported("array index")

    def nd_index(self, a, i):
        ix = i if isinstance(i, tuple) else (i,)
        if len(ix) > len(a.shape):
            raise PyRaise("IndexError")
        full = list(ix) + [slice(None)] * (len(a.shape) - len(ix))
        if a.kind == "m" and len(ix) == 1 and not isinstance(ix[0], slice):
            r = self.nd_sel(a.shape[0], ix[0])
            return Nd((1, a.shape[1]), lambda _, j: a.at(r, j), "m")
        if any(is_sym(s) for s in a.shape):
            sel = []
            for n, x in zip(a.shape, full):
                sel.append(x if isinstance(x, slice) and x == slice(None) else self.nd_sel(n, x))
            keep = [d for d, x in enumerate(sel) if isinstance(x, slice)]
            if not keep:
                return a.at(*sel)
            def at(*r):
                it = iter(r)
                return a.at(*[next(it) if isinstance(x, slice) else x for x in sel])
            return Nd([a.shape[d] for d in keep], at, "a")
        sel = [self.nd_sel(n, x) for n, x in zip(a.shape, full)]
        keep = [d for d, x in enumerate(sel) if isinstance(x, list)]
        if not keep:
            return a.at(*sel)

        def at2(*r):
            it = iter(r)
            return a.at(*[x[next(it)] if isinstance(x, list) else x for x in sel])
        sh = [len(sel[d]) for d in keep]
        if a.kind == "m" and len(sh) == 1:
            if keep[0] == 0:
                return Nd((sh[0], 1), lambda i, j: at2(i), "m")
            return Nd((1, sh[0]), lambda i, j: at2(j), "m")
        return Nd(sh, at2, a.kind)

    def nd_assign(self, a, i, v):
        if a.data is None:
            raise Unsupported("assignment into an array of unknown size")
        ix = i if isinstance(i, tuple) else (i,)
        full = list(ix) + [slice(None)] * (len(a.shape) - len(ix))
        sel = [self.nd_sel(n, x) for n, x in zip(a.shape, full)]
        keep = [d for d, x in enumerate(sel) if isinstance(x, list)]
        sh = tuple(len(sel[d]) for d in keep)
        src = v if is_scal(v) else self.nd_make(v, "a")
        if isinstance(src, Nd):
            if src.data is None and len(src.shape) == 1 and len(sh) == 1:
                if not self.branch(eq(src.shape[0], sh[0])):
                    raise PyRaise("ValueError")
                f = src.f
                src = Nd(sh, f, "a")
            while len(src.shape) > len(sh) and src.shape[0] == 1:
                s0 = src
                src = Nd(src.shape[1:], (lambda s0: lambda *r: s0.at(0, *r))(s0), "a")
            if src.shape != sh:
                raise PyRaise("ValueError")
        for r in ndindex(sh):
            it = iter(r)
            tgt = tuple(x[next(it)] if isinstance(x, list) else x for x in sel)
            a.data[tgt] = toreal(src if is_scal(src) else src.at(*r))

    def nd_attr(self, a, n):
        if n == "shape":
            return a.shape
        if n == "ndim":
            return len(a.shape)
        if n == "size":
            r = 1
            for s in a.shape:
                r = mul(r, s)
            return r
        if n == "T":
            return self.nd_T(a)
        if n == "transpose":
            return Builtin(n, lambda x, k: self.nd_T(a))
        if n == "copy":
            return Builtin(n, lambda x, k: self.reg(Nd(a.shape, a.at, a.kind)))
        if n == "dot":
            return Builtin(n, lambda x, k: self.nd_matmul(a, self.nd_make(x[0], "a")))
        if n in ("tolist",):
            return Builtin(n, lambda x, k: self.nd_tolist(a))
        if n in ("A", "__array__"):
            return Nd(a.shape, a.at, "a")
        if n in ("A1", "flatten", "ravel"):
            if len(a.shape) == 1:
                r = a
            elif a.shape[0] == 1:
                r = Nd((a.shape[1],), lambda j: a.at(0, j), "a")
            elif a.shape[1] == 1:
                r = Nd((a.shape[0],), lambda j: a.at(j, 0), "a")
            elif a.data is not None:
                c = a.shape[1]
                r = Nd((a.shape[0] * c,), lambda j: a.at(j // c, j % c), "a")
            else:
                raise Unsupported("flatten")
            return r if n == "A1" else Builtin(n, lambda x, k: r)
        if n == "item":
            return Builtin(n, lambda x, k: a.at(*[0] * len(a.shape)) if not x else self.nd_index(a, tuple(x)))
        raise Unsupported("array attribute " + n)

    def nd_tolist(self, a):
        def row(i):
            r = Nd(a.shape[1:], lambda *x: a.at(i, *x), "a")
            return self.nd_tolist(r)
        n = a.shape[0]
        if len(a.shape) == 1:
            return PyList(self, items(*[a.at(i) for i in range(n)]) if isinstance(n, int) else [Seg(n, lambda i: a.at(i))])
        return PyList(self, items(*[row(i) for i in range(n)]) if isinstance(n, int) else [Seg(n, row)])


class Foreign:
    def __init__(self, name):
        self.name = name


class Havoc:
    pass


class Star:
    def __init__(self, segs):
        self.segs = segs


class Range:
    def __init__(self, lo, n):
        self.lo, self.n = lo, n


class Run:
    """a nested run of items produced by one iteration"""

    def __init__(self, n, f):
        self.n, self.f = n, f


class Group:
    def __init__(self, vs):
        self.vs = vs


class DictKeys:
    def __init__(self, d):
        self.d = d


class AttrNames:
    """obj.__dict__ used for a membership test"""

    def __init__(self, o):
        self.o = o


def _attrnames_contains(I, v, k):
    if isinstance(v.o, Act):
        if k == "functor":
            return I.branch(I.ex.uf("hasfunctor", (v.o.ident,), "bool"))
        return False
    return k in v.o.attrs


_old_contains = Interp.contains


def _contains(self, v, k):
    if isinstance(v, AttrNames):
        return _attrnames_contains(self, v, k)
    return _old_contains(self, v, k)


Interp.contains = _contains


def strlike(v):
    return isinstance(v, str) or is_sym(v) and z3.is_string(v)


def is_scal(v):
    return isinstance(v, (int, Fraction, bool, str)) or is_sym(v)


def same_value(a, b):
    if a is b:
        return True
    if is_scal(a) and is_scal(b):
        return zx(a).eq(zx(b)) if type(zx(a)) == type(zx(b)) else False
    return False


def subst(v, k, i):
    i = zx(i)
    if is_sym(v):
        return simp_keep(z3.substitute(v, (k, i)))
    if v is None or isinstance(v, (int, Fraction, bool, str, PyObj, PyFunc, PyClass, Builtin, Tag)):
        return v
    if isinstance(v, tuple):
        return tuple(subst(x, k, i) for x in v)
    if isinstance(v, Act):
        return Act(subst(v.ident, k, i))
    if isinstance(v, Opt):
        return Opt(subst(v.isnone, k, i), subst(v.v, k, i))
    if isinstance(v, Run):
        return Run(subst(v.n, k, i), lambda j: subst(v.f(j), k, i))
    if isinstance(v, Group):
        return Group([subst(x, k, i) for x in v.vs])
    if isinstance(v, PyList):
        r = PyList.__new__(PyList)
        r.kind = v.kind
        r.segs = [Seg(None, subst(s.f, k, i)) if s.n is None else Seg(subst(s.n, k, i), (lambda s: lambda j: subst(s.f(j), k, i))(s)) for s in v.segs]
        return r
    if isinstance(v, Nd):
        return Nd([subst(s, k, i) for s in v.shape], lambda *ix: subst(v.at(*ix), k, i), v.kind)
    raise Unsupported("value %s of a loop iteration" % type(v).__name__)


def simp_keep(x):
    return _const(z3.simplify(x))


def merge(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if a is b or same_value(a, b):
        return a
    if is_scal(a) and is_scal(b) and strlike(a) == strlike(b):
        return ite(c, a, b)
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(merge(c, x, y) for x, y in zip(a, b))
    if isinstance(a, Act) and isinstance(b, Act):
        return Act(merge(c, a.ident, b.ident))
    if isinstance(a, Opt) or isinstance(b, Opt) or a is None or b is None:
        A = a if isinstance(a, Opt) else Opt(a is None, b.v if a is None and isinstance(b, Opt) else a)
        B = b if isinstance(b, Opt) else Opt(b is None, a.v if b is None and isinstance(a, Opt) else b)
        if A.v is None or B.v is None:
            raise Unsupported("merge of optional values")
        return Opt(ite(c, A.isnone, B.isnone), merge(c, A.v, B.v))
    raise Unsupported("different values on different paths of a loop body (%s, %s)" % (type(a).__name__, type(b).__name__))


def value_eq(a, b, ids=[0]):
    """equality of two values as a z3 condition (sequences element-wise)"""
    if isinstance(a, Opt) or isinstance(b, Opt) or a is None or b is None:
        if a is None and b is None:
            return True
        A = a if isinstance(a, Opt) else Opt(a is None, a)
        B = b if isinstance(b, Opt) else Opt(b is None, b)
        if A.v is None or B.v is None:
            return and_(A.isnone, B.isnone)
        return and_(eq(zx(A.isnone), zx(B.isnone)), or_(A.isnone, value_eq(A.v, B.v)))
    if is_scal(a) and is_scal(b):
        return False if strlike(a) != strlike(b) else eq(a, b)
    if isinstance(a, Act) and isinstance(b, Act):
        return eq(a.ident, b.ident)
    if isinstance(a, Tag) and isinstance(b, Tag):
        return a.name == b.name
    seqs = (tuple, PyList)
    if isinstance(a, seqs) and isinstance(b, seqs):
        if (isinstance(a, tuple) or a.kind == "tuple") != (isinstance(b, tuple) or b.kind == "tuple"):
            return False
        sa = items(*a) if isinstance(a, tuple) else a.segs
        sb = items(*b) if isinstance(b, tuple) else b.segs
        return segs_eq(sa, sb)
    if isinstance(a, Nd) and isinstance(b, Nd):
        if len(a.shape) != len(b.shape):
            return False
        cs = [eq(x, y) for x, y in zip(a.shape, b.shape)]
        if any(c is False for c in cs):
            return False
        if a.data is not None and b.data is not None:
            return and_(*[eq(a.data[i], b.data[i]) for i in a.data])
        ids[0] += 1
        ix = [z3.Int("ix%d$%d" % (d, ids[0])) for d in range(len(a.shape))]
        return and_(*cs, z3.ForAll(ix, zx(implies(and_(*[and_(ge(i, 0), lt(i, n)) for i, n in zip(ix, a.shape)]), eq(a.at(*ix), b.at(*ix))))))
    if type(a) is not type(b):
        return False
    if isinstance(a, (PyObj, PyFunc, PyClass, Builtin, Module)):
        return a is b
    raise Unsupported("equality of %s values" % type(a).__name__)


def segs_eq(sa, sb):
    if all(s.n is None for s in sa) and all(s.n is None for s in sb):
        if len(sa) != len(sb):
            return False
        return and_(*[value_eq(x.f, y.f) for x, y in zip(sa, sb)])
    na, nb = 0, 0
    for s in sa:
        na = add(na, s.len())
    for s in sb:
        nb = add(nb, s.len())
    j = z3.Int("j$%d" % id(sa))
    cs = [eq(na, nb)]
    oa = 0
    for s in sa:
        ob = 0
        for t in sb:
            c = and_(ge(j, oa), lt(j, add(oa, s.len())), ge(j, ob), lt(j, add(ob, t.len())))
            c = simp(zx(c)) if c is not True else c
            if c is not False:
                try:
                    v = value_eq(s.at(sub(j, oa)), t.at(sub(j, ob)))
                except Unsupported:
                    raise
                cs.append(z3.ForAll([j], zx(implies(c, v))))
            ob = add(ob, t.len())
        oa = add(oa, s.len())
    return and_(*cs)


def assigned_in(node):
    out = set()
    for x in ast.walk(node):
        if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
            out.add(x.id)
    return out


def assigned(fn):
    """names local to a function body (not those of nested functions)"""
    out, glob = set(), set()
    todo = list(fn.body)
    while todo:
        x = todo.pop()
        if isinstance(x, (ast.FunctionDef, ast.ClassDef)):
            out.add(x.name)
            continue
        if isinstance(x, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp)):
            continue
        if isinstance(x, ast.Global):
            glob |= set(x.names)
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
            out.add(x.id)
        if isinstance(x, (ast.Import, ast.ImportFrom)):
            out |= {(a.asname or a.name).split(".")[0] for a in x.names}
        todo.extend(ast.iter_child_nodes(x))
    return out - glob


def ast_load(t):
    import copy
    n = copy.deepcopy(t)
    n.ctx = ast.Load()
    return n


# ------------------------------------------------------------------------------------------------ contract cases
def run_paths(case, mod, fn):
    """runs the case once per path of the code it calls"""
    ds = []
    n = 0
    from .interp import St
    while True:
        case.ex.st = St()
        case.normal = True
        try:
            I = case.py = Interp(case, mod)
            I.decs = [ds, 0]
            fn(case)
        except PathInfeasible:
            pass
        except PyRaise as e:
            case.ex.oblige("no Python exception (%s)" % e.exc, z3.BoolVal(False), kind="pyexc")
        n += 1
        case.path_ends = getattr(case, "path_ends", []) + [len(case.ex.obls)]
        if n > 400:
            raise Unsupported("too many paths")
        if not Interp.next_path(ds):
            break
    case.notes.append("%d paths" % n)
