"""Loops.  A loop whose trip count is not a literal is summarised by an inductive invariant inferred from one symbolic
execution of its real body: every location the body changes gets a closed form in the iteration number k (last value,
init + c*k, init + SUM, bounded quantifier, guarded write, last conditional write, or an explicit recurrence).  The
closed forms are the loop invariant; that the real body preserves them is emitted as an obligation of its own
("loop invariant preserved"), so a wrong inference cannot make anything provable."""
import hashlib
import z3
from .values import *
from .values import _const
from .ctypes_ import T
from . import interp as I

LIMIT = 130


# ------------------------------------------------------------------------------------------ canonical names
COMM = {z3.Z3_OP_MUL, z3.Z3_OP_ADD, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT}


def canon(expr, bound=()):
    """(structural hash, free constants in order of first occurrence); `bound` constants are positional."""
    bnd = {b.get_id(): "B%d" % i for i, b in enumerate(bound)}
    memo, params, order = {}, {}, []
    blind, named = {}, {}

    def key(e, tab, names):
        """structural hash without numbering of the constants (names: with their names)"""
        i = e.get_id()
        if i in tab:
            return tab[i]
        if z3.is_quantifier(e):
            s = ("Q", e.is_forall(), e.num_vars(), key(e.body(), tab, names))
        elif z3.is_var(e):
            s = ("V", z3.get_var_index(e))
        elif e.num_args() == 0:
            s = bnd[i] if i in bnd else ("P", e.sort().name()) if not names and e.decl().kind() == z3.Z3_OP_UNINTERPRETED else e.sexpr()
        else:
            cs = [key(c, tab, names) for c in e.children()]
            s = (e.decl().name(), e.decl().kind()) + tuple(sorted(cs) if e.decl().kind() in COMM else cs)
        tab[i] = hashlib.sha1(repr(s).encode()).hexdigest()[:16]
        return tab[i]

    def kids(e):
        cs = e.children()
        if len(cs) > 1 and e.decl().kind() in COMM:
            cs = sorted(cs, key=lambda c: (key(c, blind, False), key(c, named, True)))
        return cs

    def go(e):
        i = e.get_id()
        if i in memo:
            return memo[i]
        if z3.is_quantifier(e):
            b = go(e.body())
            s = ("Q", e.is_forall(), e.num_vars(), tuple(e.var_sort(j).name() for j in range(e.num_vars())), b)
        elif z3.is_var(e):
            s = ("V", z3.get_var_index(e))
        elif e.num_args() == 0:
            if i in bnd:
                s = bnd[i]
            elif e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                if i not in params:
                    params[i] = len(order)
                    order.append(e)
                s = ("P", params[i], e.sort().name())
            else:
                s = e.sexpr()
        else:
            d = e.decl()
            nm = d.name()
            if d.kind() != z3.Z3_OP_UNINTERPRETED:
                nm = "%d:%s" % (d.kind(), nm)
            s = (nm,) + tuple(go(c) for c in kids(e))
        h = hashlib.sha1(repr(s).encode()).hexdigest()[:16]
        memo[i] = h
        return h
    import sys
    sys.setrecursionlimit(20000)
    return go(expr), order


def mentions(e, names):
    """does e contain an uninterpreted symbol with one of these names?"""
    if not is_sym(e):
        return False
    seen, todo = set(), [e]
    while todo:
        x = todo.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            todo.append(x.body())
            continue
        if z3.is_app(x):
            d = x.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED and d.name() in names:
                return True
            todo.extend(x.children())
    return False


def mentions_deep(ex, e, names):
    """the same, looking into the definitions of the summary symbols that occur"""
    if mentions(e, names):
        return True
    seen, todo = set(), [e]
    while todo:
        x = todo.pop()
        for nm in all_symbols(x):
            if nm in seen or nm not in ex.sums:
                continue
            seen.add(nm)
            D = ex.sums[nm]
            for b in [D.body] + list(D.extra or ()):
                if mentions(b, names):
                    return True
                todo.append(b)
    return False


def hidden(ex, e, names):
    """do these names occur in a definition that e refers to?"""
    return mentions_deep(ex, e, names) and any(
        any(mentions_deep(ex, b, names) for b in [ex.sums[n].body] + list(ex.sums[n].extra or ())) for n in all_symbols(e) if n in ex.sums)


def all_symbols(e):
    if not is_sym(e):
        return set()
    out, seen, todo = set(), set(), [e]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
        elif z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name())
            todo.extend(x.children())
    return out


def apps_of(e, name):
    out, seen, todo = [], set(), [e]
    while todo:
        x = todo.pop()
        if not is_sym(x) or x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
            continue
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() == name:
                out.append(x)
            todo.extend(x.children())
    return out


def subst(e, pairs):
    if not is_sym(e):
        return e
    prs = []
    for a, b in pairs:
        b = zx(b)
        if a.sort() != b.sort():
            if z3.is_real(a):
                b = zx(toreal(_const(b)))
        prs.append((a, b))
    return _const(z3.substitute(e, *prs)) if prs else e


def sortname(x):
    if isinstance(x, bool) or (is_sym(x) and z3.is_bool(x)):
        return "bool"
    if isinstance(x, str) or (is_sym(x) and z3.is_string(x)):
        return "str"
    if is_real(x):
        return "real"
    return "int"


class Def:
    """definition of an uninterpreted summary symbol"""
    __slots__ = ("kind", "name", "k", "params", "body", "extra", "idx")

    def __init__(self, kind, name, k, params, body, extra=None, idx=()):
        self.kind, self.name, self.k, self.params, self.body, self.extra, self.idx = kind, name, k, params, body, extra, idx

    def at(self, k, args, idx=()):
        b = z3.substitute(zx(self.body), (self.k, zx(k)), *list(zip(self.params, args)), *list(zip(self.idx, [zx(i) for i in idx])))
        return b


def _push_ite(e):
    return e


def SUM(ex, lo, hi, k, body):
    """sum_{lo <= k < hi} body(k) as an uninterpreted symbol with a registered definition"""
    body = z3.simplify(zx(body))
    lo, hi = simp(lo), simp(hi)
    if is_num(lo) and is_num(hi) and hi - lo <= 12:
        r = Fraction(0) if z3.is_real(body) else 0
        for j in range(int(lo), int(hi)):
            r = add(r, _const(z3.simplify(z3.substitute(body, (k, z3.IntVal(j))))))
        return r
    c = _const(body)
    if is_num(c) and c == 0:
        return c
    h, ps = canon(body, (k,))
    nm = "sum$" + h
    if nm not in ex.sums:
        kk = z3.Int("k$sum")
        pp = [z3.Const("p%d$%s" % (i, nm), p.sort()) for i, p in enumerate(ps)]
        ex.sums[nm] = Def("sum", nm, kk, pp, z3.substitute(body, (k, kk), *list(zip(ps, pp))))
    return ex.uf(nm, [zx(lo), zx(hi)] + ps, "real" if z3.is_real(body) else "int")


def LASTW(ex, K, k, guard, idx=(), idxv=None):
    """largest j < K (j >= 0) with guard(j, idx), or -1"""
    guard = z3.simplify(zx(guard))
    h, ps = canon(guard, (k,) + tuple(idx))
    nm = "last$" + h
    if nm not in ex.sums:
        kk = z3.Int("k$last")
        pp = [z3.Const("p%d$%s" % (i, nm), p.sort()) for i, p in enumerate(ps)]
        ii = [z3.Const("i%d$%s" % (i, nm), p.sort()) for i, p in enumerate(idx)]
        ex.sums[nm] = Def("last", nm, kk, pp, z3.substitute(guard, (k, kk), *(list(zip(ps, pp)) + list(zip(idx, ii)))), None, ii)
    iv = list(idx) if idxv is None else [zx(x) for x in idxv]
    return ex.uf(nm, [zx(K)] + iv + ps, "int")


def REC(ex, K, k, init, step, h, idx=(), idxv=None):
    """value after K iterations of x := step(k, x), x0 = init"""
    init, step = zx(init), z3.simplify(zx(step))
    if init.sort() != step.sort():
        init, step = zx(toreal(_const(init))), zx(toreal(_const(step)))
    x = z3.Const("x$rec", step.sort())
    st = z3.substitute(step, (h, x))
    tup = z3.Function("pair$" + step.sort().name(), init.sort(), step.sort(), z3.BoolSort())(init, st)
    hh, ps = canon(tup, (k, x) + tuple(idx))
    nm = "rec$" + hh
    if nm not in ex.sums:
        kk = z3.Int("k$rec")
        pp = [z3.Const("p%d$%s" % (i, nm), p.sort()) for i, p in enumerate(ps)]
        ii = [z3.Const("i%d$%s" % (i, nm), p.sort()) for i, p in enumerate(idx)]
        sb = [(k, kk)] + list(zip(ps, pp)) + list(zip(idx, ii))
        ex.sums[nm] = Def("rec", nm, kk, pp, z3.substitute(st, *sb), (x, z3.substitute(init, *sb)), ii)
    iv = list(idx) if idxv is None else [zx(v) for v in idxv]
    return ex.uf(nm, [zx(K)] + iv + ps, sortname(step))


def canon_const(ex, tag, expr, sort):
    """a symbol determined by (the structure of) the expression defining it"""
    h, ps = canon(zx(expr))
    return ex.uf("%s$%s" % (tag, h), ps, sort)


# ------------------------------------------------------------------------------------------ shapes
def shape(ex, a, b):
    """structure of the part in which value b differs from value a"""
    if a is b or same(a, b):
        return ("const",)
    if is_scalar(a) and is_scalar(b):
        sa, sb = sortname(a), sortname(b)
        if is_sym(a) and is_sym(b) and z3.simplify(a).eq(z3.simplify(b)):
            return ("const",)
        if sa == sb:
            return ("s", sa)
        if {sa, sb} == {"int", "real"}:
            return ("s", "real")
        if {sa, sb} == {"int", "bool"}:
            return ("s", "int")
        raise Unsupported("loop-carried value of changing type")
    if isinstance(a, Mat) and isinstance(b, Mat):
        rs, cs = shape(ex, a.r, b.r), shape(ex, a.c, b.c)
        if rs[0] == "const" and cs[0] == "const" and isinstance(a.r, int) and isinstance(a.c, int) and a.r * a.c <= 64:
            return ("mc", a.r, a.c, {(i, j): shape(ex, a.at(i, j), b.at(i, j)) for i in range(a.r) for j in range(a.c)})
        p, q = z3.Int("p$shape"), z3.Int("q$shape")
        try:
            x = a.at(p, q)
        except Unsupported:
            x = Fraction(0)
        y = b.at(p, q)
        es = shape(ex, x, y)
        return ("m", rs, cs, es if es[0] == "const" else ("s", "real" if is_real(x) or is_real(y) else sortname(y)))
    if isinstance(a, Seq) and isinstance(b, Seq):
        ns = shape(ex, a.n, b.n)
        p = z3.Int("p$shape")
        x = y = None
        try:
            y = b.at(p)
        except Unsupported:
            pass
        try:
            x = a.at(p)
        except Unsupported:
            pass
        if y is None and x is None:
            return ("q", b.et or a.et, ns, ("const",))
        if x is None:
            x = ex.sym(b.et or a.et, "noelem") if (b.et or a.et) is not None else y
        if y is None:
            y = x
        es = shape(ex, x, y)
        if es[0] != "const" or ns[0] != "const":
            return ("q", b.et or a.et, ns, es)
        return ("const",)
    if isinstance(a, Struct) and isinstance(b, Struct) and a.cls == b.cls:
        d = {}
        for n in sorted(set(a.fields) | set(b.fields)):
            s = shape(ex, a.get(n), b.get(n))
            if s[0] != "const":
                d[n] = s
        return ("st", d) if d else ("const",)
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        if a.kind in ("null", "opq") and b.kind in ("null", "opq"):
            return ("p", a.cls or b.cls)
        raise Unsupported("loop-carried pointer to a local object")
    if isinstance(a, Iter) and isinstance(b, Iter) and a.kind == b.kind and a.rev == b.rev and same(a.lv, b.lv):
        if is_scalar(a.pos) and is_scalar(b.pos):
            return ("it", a.lv, a.kind, a.rev)
        raise Unsupported("loop-carried map iterator")
    if isinstance(a, Stream) and isinstance(b, Stream):
        if a.text is None or b.text is None:
            return ("stx",)
        return ("stream",)
    if isinstance(a, MapV) and isinstance(b, MapV):
        kt = a.kt or b.kt
        q = z3.String("q$shape") if kt is not None and kt.k == "str" else z3.Int("q$shape")
        hs = shape(ex, a.has(q), b.has(q))
        vs = ("const",)
        vt = a.vt or b.vt
        if vt is not None:
            vs = shape(ex, a.get(q), b.get(q))
        zs = shape(ex, a.size, b.size) if a.size is not None and b.size is not None else ("none",)
        if hs[0] == "const" and vs[0] == "const" and zs[0] in ("const", "none"):
            return ("const",)
        return ("map", kt, vt, hs, vs, zs)
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        return ("opaque",)
    if isinstance(a, SigV) and isinstance(b, SigV) and a.sid == b.sid and a.over is b.over and a.plugged is b.plugged \
            and len(a.args) == len(b.args) and all(eq(x, y) is True or is_sym(x) and is_sym(y) and x.eq(y) for x, y in zip(a.args, b.args)):
        return ("const",)
    if isinstance(a, Fun) and isinstance(b, Fun):
        raise Unsupported("loop-carried function object")
    raise Unsupported("loop-carried value %r / %r" % (type(a), type(b)))


def join(s, t):
    if s[0] == "const":
        return t
    if t[0] == "const":
        return s
    if s[0] != t[0]:
        if {s[0], t[0]} == {"mc", "m"}:
            s, t = (s, t) if s[0] == "m" else (t, s)
            return s
        if {s[0], t[0]} == {"stream", "stx"}:
            return ("stx",)
        raise Unsupported("loop shapes")
    k = s[0]
    if k == "mc":
        return ("mc", s[1], s[2], {e: join(s[3][e], t[3][e]) for e in s[3]})
    if k == "m":
        return ("m", join(s[1], t[1]), join(s[2], t[2]), join(s[3], t[3]))
    if k == "q":
        return ("q", s[1] or t[1], join(s[2], t[2]), join(s[3], t[3]))
    if k == "st":
        d = dict(s[1])
        for n, x in t[1].items():
            d[n] = join(d[n], x) if n in d else x
        return ("st", d)
    if k == "map":
        return ("map", s[1], s[2], join(s[3], t[3]), join(s[4], t[4]), join(s[5], t[5]) if s[5][0] != "none" else s[5])
    if k == "s" and s[1] != t[1]:
        return ("s", "real")
    return s


def build(ex, sh, base, look, name, idx):
    """value of shape sh whose changing leaves are look(name, idx, sort); unchanged parts come from base (a thunk)"""
    k = sh[0]
    if k == "const":
        return base()
    if k == "s":
        return look(name, idx, sh[1])
    if k == "mc":
        b = base()
        return Mat(sh[1], sh[2], None, {(i, j): build(ex, s, lambda i=i, j=j: b.at(i, j), look, "%s[%d,%d]" % (name, i, j), idx)
                                        for (i, j), s in sh[3].items()})
    if k == "m":
        b = base()
        r = build(ex, sh[1], lambda: b.r, look, name + ".r", idx)
        c = build(ex, sh[2], lambda: b.c, look, name + ".c", idx)
        if sh[3][0] == "const":
            return mat(r, c, lambda i, j: b.at(i, j))
        if isinstance(c, int) and c == 1:
            return mat(r, c, lambda i, j: look(name + "[]", idx + (i, 0), sh[3][1]))
        if isinstance(r, int) and r == 1 and sh[1][0] == "const":
            return mat(r, c, lambda i, j: look(name + "[]", idx + (0, j), sh[3][1]))
        return mat(r, c, lambda i, j: look(name + "[]", idx + (i, j), sh[3][1]))
    if k == "q":
        b = base()
        n = build(ex, sh[2], lambda: b.n, look, name + ".n", idx)
        et = sh[1]
        return Seq(n, lambda i: build(ex, sh[3], lambda: elem(ex, b, i, et), look, name + "[]", idx + (i,)), et)
    if k == "st":
        b = base()
        d = dict(b.fields)
        for f, s in sh[1].items():
            d[f] = build(ex, s, lambda f=f: b.get(f), look, name + "." + f, idx)
        return Struct(b.cls, d, b.mk)
    if k == "p":
        return Ptr("opq", ident=look(name, idx, "int"), cls=sh[1])
    if k == "it":
        return Iter(sh[1], look(name, idx, "int"), sh[2], sh[3])
    if k == "stream":
        return Stream(look(name, idx, "str"))
    if k == "stx":
        return Stream(None)
    if k == "opaque":
        return Opaque("loop")
    if k == "map":
        b = base()
        has = (lambda q: build(ex, sh[3], lambda: b.has(q), look, name + ".has", idx + (q,)))
        get = (lambda q: build(ex, sh[4], lambda: b.get(q), look, name + "[]", idx + (q,))) if sh[2] is not None else b.get
        sz = build(ex, sh[5], lambda: b.size, look, name + ".size", idx) if sh[5][0] != "none" else None
        return MapV(has, get, sh[1], sh[2], sz)
    raise Unsupported("shape " + k)


def elem(ex, s, i, et):
    try:
        return s.at(i)
    except Unsupported:
        if et is None:
            et = s.et
        if et is None:
            raise
        return ex.sym(et, "noelem", (i,))


def flat(ex, sh, v, name, idx, out):
    """leaves of value v: out[name] = (idx constants, scalar, sort)"""
    k = sh[0]
    if k in ("const", "stx", "opaque", "none"):
        return
    if k == "s":
        x = v
        if sh[1] == "real":
            x = toreal(x)
        elif sh[1] == "int" and (isinstance(x, bool) or is_sym(x) and z3.is_bool(x)):
            x = toint(x)
        out[name] = (idx, x, sh[1])
    elif k == "mc":
        for (i, j), s in sh[3].items():
            flat(ex, s, v.at(i, j), "%s[%d,%d]" % (name, i, j), idx, out)
    elif k == "m":
        flat(ex, sh[1], v.r, name + ".r", idx, out)
        flat(ex, sh[2], v.c, name + ".c", idx, out)
        if sh[3][0] != "const":
            p, q = z3.Int(name + "[]!p"), z3.Int(name + "[]!q")
            if isinstance(v.c, int) and v.c == 1:
                x = v.at(p, 0) if not (isinstance(v.r, int) and v.r == 0) else Fraction(0)
                out[name + "[]"] = (idx + (p, 0), toreal(x) if sh[3][1] == "real" else x, sh[3][1])
            else:
                if isinstance(v.r, int) and isinstance(v.c, int) and v.r * v.c == 0:
                    x = Fraction(0)
                else:
                    x = v.at(p, q)
                if isinstance(v.r, int) and v.r == 1 and sh[1][0] == "const":
                    p = 0
                out[name + "[]"] = (idx + (p, q), toreal(x) if sh[3][1] == "real" else x, sh[3][1])
    elif k == "q":
        flat(ex, sh[2], v.n, name + ".n", idx, out)
        if sh[3][0] != "const":
            p = z3.Int(name + "[]!p")
            flat(ex, sh[3], elem(ex, v, p, sh[1]), name + "[]", idx + (p,), out)
    elif k == "st":
        for f, s in sh[1].items():
            flat(ex, s, v.get(f), name + "." + f, idx, out)
    elif k == "p":
        out[name] = (idx, 0 if v.kind == "null" else v.ident, "int")
    elif k == "it":
        out[name] = (idx, v.pos, "int")
    elif k == "stream":
        out[name] = (idx, v.text if v.text is not None else ex.fresh("str", "st"), "str")
    elif k == "map":
        q = z3.String(name + "!q") if sh[1] is not None and sh[1].k == "str" else z3.Int(name + "!q")
        flat(ex, sh[3], v.has(q), name + ".has", idx + (q,), out)
        if sh[2] is not None:
            flat(ex, sh[4], v.get(q), name + "[]", idx + (q,), out)
        if sh[5][0] != "none" and v.size is not None:
            flat(ex, sh[5], v.size, name + ".size", idx, out)
    else:
        raise Unsupported("shape " + k)


# ------------------------------------------------------------------------------------------ solving one leaf
def lincoef(d, k):
    """coefficient of k in the integer expression d if d is linear in k with a literal coefficient"""
    d = zx(d)
    a = simp(z3.substitute(d, (k, k + 1)) - d)
    if isinstance(a, (int, Fraction)) and not isinstance(a, bool):
        return int(a) if a == int(a) else None
    return None


def atoms(e):
    out, seen, todo = [], set(), [e]
    while todo:
        x = todo.pop()
        if not is_sym(x) or x.get_id() in seen or z3.is_quantifier(x):
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if z3.is_eq(x) and z3.is_int(x.arg(0)):
                out.append(x)
            todo.extend(x.children())
    return out


def delta(T_, h):
    """T - h, or None when it depends on h"""
    if not is_sym(T_):
        return None
    if T_.eq(h):
        return Fraction(0) if z3.is_real(h) else 0
    if z3.is_app_of(T_, z3.Z3_OP_ITE):
        c = T_.arg(0)
        if mentions(c, {h.decl().name()}):
            return None
        a, b = delta(T_.arg(1), h), delta(T_.arg(2), h)
        if a is None or b is None:
            return None
        return ite(c, a, b)
    d = simp(T_ - h)
    if mentions(d, {h.decl().name()}):
        d = simp(z3.simplify(T_ - h, som=True))
        if mentions(d, {h.decl().name()}):
            return None
    return d


def split_write(T_, h):
    """(guard, written value) of an if-then-else tree whose leaves are h or free of h; None otherwise"""
    nm = {h.decl().name()}
    if is_sym(T_) and T_.eq(h):
        return False, None
    if not mentions(T_, nm):
        return True, T_
    if z3.is_app_of(T_, z3.Z3_OP_ITE):
        c = T_.arg(0)
        if mentions(c, nm):
            return None
        a, b = split_write(_const(T_.arg(1)), h), split_write(_const(T_.arg(2)), h)
        if a is None or b is None:
            return None
        g = or_(and_(c, a[0]), and_(not_(c), b[0]))
        if a[1] is None:
            w = b[1]
        elif b[1] is None:
            w = a[1]
        else:
            w = ite(c, a[1], b[1])
        return g, w
    return None


def solve_leaf(ex, k, idx, init, T_, h, hname, base_pc, more=()):
    """function (K, index values) -> value after K iterations, or None"""
    sidx = [p for p in idx if is_sym(p)]

    def at(body, K, ix):
        prs = [(k, zx(K))] + [(p, zx(v)) for p, v in zip(idx, ix) if is_sym(p)]
        return subst(body, prs)

    def initv(ix):
        return subst(init, [(p, zx(v)) for p, v in zip(idx, ix) if is_sym(p)])
    T_ = simp(T_)
    if is_sym(T_) and sortname(T_) == "real" and not mentions(T_, {hname}):
        pass
    if hidden(ex, T_, {hname}):
        return None
    if not mentions(T_, {hname}):
        if same(T_, init):
            return lambda K, ix: initv(ix)
        return lambda K, ix: ite_s(simp(le(K, 0)), initv(ix), at(T_, sub(K, 1), ix))
    if T_.eq(h):
        return lambda K, ix: initv(ix)
    # point-wise guarded write
    if sidx:
        for a in atoms(T_):
            if mentions(a, {hname}):
                continue
            d = a.arg(0) - a.arg(1)
            ck = lincoef(d, k)
            if ck not in (1, -1):
                continue
            if not any(mentions(d, {p.decl().name()}) for p in sidx):
                continue
            off = simp(z3.substitute(T_, (a, z3.BoolVal(False))))
            if not (is_sym(off) and off.eq(h)):
                continue
            # a  <=>  k == js
            d0 = z3.substitute(d, (k, z3.IntVal(0)))
            js = simp(-d0 if ck == 1 else d0)
            A = z3.substitute(T_, (a, z3.BoolVal(True)))
            A = zx(simp(z3.substitute(A, (k, zx(js)))))
            ok = True
            for ap in apps_of(A, hname):
                args = ap.children()
                # index read; it must be the written cell itself or one not yet written at iteration js
                prs = [(p_, a_) for p_, a_ in zip(idx, args) if is_sym(p_)]
                jr = z3.substitute(zx(js), *prs)
                if z3.simplify(zx(jr)).eq(z3.simplify(zx(js))) or ex.known(simp(zx(jr) >= zx(js)), base_pc):
                    A = z3.substitute(A, (ap, zx(subst(init, prs))))
                else:
                    ok = False
                    break
            if not ok:
                continue
            A = simp(A)
            return lambda K, ix: ite_s(simp(and_(ge(at(js, 0, ix), 0), lt(at(js, 0, ix), K))), at(A, 0, ix), initv(ix))
    others = [a for a in apps_of(T_, hname) if not a.eq(h)]
    if others and is_sym(h):
        T_ = own_reads(T_, h, hname, [zx(x) for x in base_pc if x is not True])
        others = [a for a in apps_of(T_, hname) if not a.eq(h)]
    if others:
        return None
    if z3.is_bool(h):
        t1 = simp(z3.substitute(T_, (h, z3.BoolVal(True))))
        t0 = simp(z3.substitute(T_, (h, z3.BoolVal(False))))
        if t1 is True:
            def vor(K, ix):
                j = z3.Int("j$q")
                return or_(initv(ix), z3.Exists([j], z3.And(j >= 0, j < zx(K), zx(at(t0, j, ix)))))
            return vor
        if t0 is False:
            def vand(K, ix):
                j = z3.Int("j$q")
                return and_(initv(ix), z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < zx(K)), zx(at(t1, j, ix)))))
            return vand
    if z3.is_int(h) or z3.is_real(h):
        d = delta(T_, h)
        if d is not None:
            if not mentions(d, {k.decl().name()}):
                return lambda K, ix: add(initv(ix), mul(K, at(d, 0, ix)))
            j = z3.Int("j$s")

            def total_(e, K, ix):
                # a condition that does not depend on the iteration selects between two sums
                if z3.is_app_of(e, z3.Z3_OP_ITE) and not mentions_deep(ex, e.arg(0), {k.decl().name()}):
                    return ite_s(simp(at(e.arg(0), 0, ix)), total_(e.arg(1), K, ix), total_(e.arg(2), K, ix))
                return SUM(ex, 0, K, j, zx(at(e, j, ix)))
            return lambda K, ix: add(initv(ix), total_(zx(d), K, ix))
    sw = split_write(T_, h)
    if sw is not None and sw[1] is not None:
        g, w = simp(sw[0]), sw[1]
        if more and sidx and is_sym(g) and not mentions(w, {k.decl().name()}) and shrinking(ex, k, g, base_pc + more):
            # what is ever written is written by the first iteration
            return lambda K, ix: ite_s(simp(and_(gt(K, 0), at(g, 0, ix))), at(w, 0, ix), initv(ix))
        for a in conjuncts(g) if is_sym(g) else ():
            if z3.is_eq(a) and z3.is_int(a.arg(0)) and lincoef(a.arg(0) - a.arg(1), k) in (1, -1):
                # written by one iteration only
                d = a.arg(0) - a.arg(1)
                d0 = z3.substitute(d, (k, z3.IntVal(0)))
                js = simp(-d0 if lincoef(d, k) == 1 else d0)
                if mentions_deep(ex, zx(js), {k.decl().name()}):
                    continue
                return lambda K, ix: ite_s(simp(and_(ge(at(js, 0, ix), 0), lt(at(js, 0, ix), K), at(g, at(js, 0, ix), ix))), at(w, at(js, 0, ix), ix), initv(ix))

        def vl(K, ix):
            L = LASTW(ex, K, k, at(g, k, ix), (), None)
            return ite_s(simp(lt(L, 0)), initv(ix), at(w, L, ix))
        return vl

    def vr(K, ix):
        return REC(ex, K, k, initv(ix), at(T_, k, ix), h if not idx else subst(h, [(p, zx(v)) for p, v in zip(idx, ix) if is_sym(p)]))
    return vr


def shrinking(ex, k, g, pc):
    """does the guard hold at every iteration before one where it holds?"""
    s = z3.Solver()
    s.set("timeout", 1000)
    g1 = zx(subst(g, [(k, k + 1)]))
    s.add(*[zx(x) for x in pc if x is not True], g1, z3.Not(zx(g)))
    from .prover import summary_axioms, uf_terms
    s.add(*summary_axioms(ex, uf_terms([zx(g), g1])))
    return s.check() == z3.unsat


def own_reads(e, h, hname, pc):
    """reads of the array at an index that the enclosing conditions make equal to the current one"""
    if z3.is_app_of(e, z3.Z3_OP_ITE):
        c = e.arg(0)
        return z3.simplify(z3.If(c, own_reads(e.arg(1), h, hname, pc + [c]), own_reads(e.arg(2), h, hname, pc + [z3.Not(c)])))
    prs = []
    for ap in apps_of(e, hname):
        if ap.eq(h) or ap.num_args() != h.num_args():
            continue
        s = z3.Solver()
        s.set("timeout", 300)
        s.add(*pc, z3.Or(*[a != b for a, b in zip(ap.children(), h.children())]))
        if s.check() == z3.unsat:
            prs.append((ap, h))
    return z3.substitute(e, *prs) if prs else e


def written_cell(k, idx, T_, h, hname):
    """(j, p, pk): cell p of the leaf is written exactly at iteration j(p), i.e. iteration k writes the cell p = pk(k)"""
    if not is_sym(T_):
        return None
    sidx = [p for p in idx if is_sym(p)]
    for a in atoms(T_):
        if mentions(a, {hname}):
            continue
        d = a.arg(0) - a.arg(1)
        ck = lincoef(d, k)
        ps = [p for p in sidx if mentions(d, {p.decl().name()})]
        if ck not in (1, -1) or len(ps) != 1 or lincoef(d, ps[0]) not in (1, -1):
            continue
        off = simp(z3.substitute(T_, (a, z3.BoolVal(False))))
        if not (is_sym(off) and off.eq(h)):
            continue
        d0 = z3.substitute(d, (k, z3.IntVal(0)))
        js = simp(-d0 if ck == 1 else d0)
        cp = lincoef(d, ps[0])
        r0 = z3.substitute(d, (ps[0], z3.IntVal(0)))
        return js, ps[0], simp(-r0 if cp == 1 else r0)
    return None


def cell_form(ex, ini, js, p, written):
    idx, iv, srt = ini

    def f(K, ix):
        prs = [(q, zx(v)) for q, v in zip(idx, ix) if is_sym(q)]
        j = subst(js, prs)
        ot = [v for q, v in zip(idx, ix) if is_sym(q) and not q.eq(p)]
        return ite_s(simp(and_(ge(j, 0), lt(j, K))), written(j, ot), subst(iv, prs))
    return f


def solve_cell(ex, k, ini, T_, W, js, p, pk, other):
    """the written values as a recurrence over the iterations"""
    idx, iv, srt = ini
    A = under(k >= 0, simp(subst(T_, [(p, pk)])))
    if mentions_deep(ex, A, other) or hidden(ex, A, {W}):
        return None
    oth = [q for q in idx if is_sym(q) and not q.eq(p)]
    h = z3.Const("h$W", zx(iv).sort())
    for ap in apps_of(A, W) if is_sym(A) else []:
        if simp(ap.arg(0) - k + 1) != 0 or any(not a.eq(o) for a, o in zip(ap.children()[1:], oth)):
            return None
    i0 = subst(A, [(k, z3.IntVal(0))])
    i0 = simp(i0) if is_sym(i0) else i0
    st = under(k >= 0, simp(subst(A, [(k, k + 1)])))
    if mentions(i0, {W}) or (is_sym(st) and z3.is_quantifier(st)):
        return None
    for ap in apps_of(st, W) if is_sym(st) else []:
        st = subst(st, [(ap, h)])

    def R(j, ot):
        prs = [(q, zx(v)) for q, v in zip(oth, ot)]
        a0, s1 = subst(i0, prs), subst(st, prs)
        if is_sym(s1) and s1.eq(h):
            return a0
        if not mentions(s1, {"h$W"}):
            return subst(A, prs + [(k, zx(j))]) if not mentions(A, {W}) else ite_s(simp(eq(j, 0)), a0, subst(s1, [(k, zx(sub(j, 1)))]))
        return REC(ex, j, k, a0, s1, h)
    return cell_form(ex, ini, js, p, R)


# ------------------------------------------------------------------------------------------ trip count
def cmp_norm(c):
    """comparison -> ('gt', D) meaning D > 0, or ('ne', D)"""
    neg_ = False
    while z3.is_not(c):
        neg_ = not neg_
        c = c.arg(0)
    if not z3.is_app(c) or c.num_args() != 2 or not z3.is_int(c.arg(0)):
        return None
    a, b = c.arg(0), c.arg(1)
    k = c.decl().kind()
    if k == z3.Z3_OP_EQ:
        return ("ne", a - b) if neg_ else None
    if k == z3.Z3_OP_DISTINCT:
        return None if neg_ else ("ne", a - b)
    if k == z3.Z3_OP_LT:
        return ("gt", a - b + 1) if neg_ else ("gt", b - a)
    if k == z3.Z3_OP_LE:
        return ("gt", a - b) if neg_ else ("gt", b - a + 1)
    if k == z3.Z3_OP_GT:
        return ("gt", b - a + 1) if neg_ else ("gt", a - b)
    if k == z3.Z3_OP_GE:
        return ("gt", b - a) if neg_ else ("gt", a - b + 1)
    return None


def trip_count(ex, c, k):
    """N such that c(j) holds exactly for 0 <= j < N (closed form), or None"""
    n = cmp_norm(c)
    if n is None:
        return None
    kind, D = n
    a = lincoef(D, k)
    if a is None or a == 0:
        return None
    D0 = simp(z3.substitute(D, (k, z3.IntVal(0))))
    if kind == "ne":
        if a == -1:
            v = D0
        elif a == 1:
            v = simp(neg(D0))
        else:
            return None
        if not ex.known(ge(v, 0)):
            ex.oblige("loop terminates (the bound is reachable)", ge(v, 0))
        return v
    if a == -1:
        if ex.known(ge(D0, 0)) or z3.is_app(zx(D0)) and zx(D0).decl().name() in ex.sizes:
            return D0
        return ite(ge(D0, 0), D0, 0)
    if a < 0:
        v = simp(idiv_pos(add(D0, -a - 1), -a))
        return ite(ge(D0, 0), v, 0)
    return None


def idiv_pos(x, n):
    if not is_sym(x):
        return x // n
    return x / z3.IntVal(n)


# ------------------------------------------------------------------------------------------ the driver
class Snap:
    def __init__(self, ex):
        self.st = ex.st.copy()
        self.thr = list(ex.thr)
        self.nob = len(ex.obls)
        self.rec = ex.record
        self.ctx = list(ex.ctx)

    def back(self, ex):
        ex.st = self.st.copy()
        ex.thr = list(self.thr)
        del ex.obls[self.nob:]
        ex.record = self.rec
        ex.ctx = list(self.ctx)


def run_loop(ex, s, cond, body, inc):
    start = Snap(ex)
    res = Outs_()
    exits = []
    n = 0
    while True:
        before = ex.st.copy()
        try:
            c = cond()
        except I.PathEnd:
            res.n = ex.merge_st(exits)
            return res
        c = simp(c)
        if is_sym(c) and ex.known(not_(c)):
            c = False
        elif is_sym(c) and n < 8 and ex.known(c):
            c = True if n > 0 or _will_stop(ex, c) else c
        if c is False:
            exits.append(ex.st)
            res.n = ex.merge_st(exits)
            return res
        if is_sym(c) and n > 0 and ex.unroll_bound == 0:
            # became symbolic after some literal iterations: summarise from the current state
            ex.st = before
            o = symbolic(ex, s, cond, body, inc)
            res.r += o.r
            if o.n is not None:
                exits.append(o.n)
            res.n = ex.merge_st(exits)
            return res
        if is_sym(c):
            if ex.unroll_bound:
                base = ex.st
                if ex.feasible(not_(c), base.pc):
                    exits.append(base.copy().assume(not_(c)))
                if n >= ex.unroll_bound:
                    ex.bounded.append(("loop at line %s" % s.get("line"), ex.unroll_bound))
                    res.n = ex.merge_st(exits)
                    return res
                ex.st = base.copy().assume(c)
            else:
                start.back(ex)
                return symbolic(ex, s, cond, body, inc)
        o = body()
        res.r += o.r
        exits += o.b
        st = ex.merge_st([x for x in [o.n] + o.c if x is not None])
        if st is None:
            res.n = ex.merge_st(exits)
            return res
        ex.st = st
        if inc is not None:
            inc()
        n += 1
        if n > LIMIT or (n > 12 and exits):
            if ex.unroll_bound:
                raise Unsupported("unrolling limit (line %s)" % s.get("line"))
            start.back(ex)
            return symbolic(ex, s, cond, body, inc)


def _will_stop(ex, c):
    return False


def Outs_():
    return I.Outs()


def step(ex, cond, body, inc, pre_assume, need_cond=True):
    """one iteration from ex.st: returns (c, continuing state or None, breaks, returns, throws)"""
    ex.thr = []
    c = cond()
    if need_cond:
        c = simp(c)
        if is_sym(c):
            ex.st = ex.st.assume(c)
        elif c is False:
            return False, None, [], [], []
    for a in pre_assume:
        ex.st = ex.st.assume(a)
    try:
        o = body()
    except I.PathEnd:
        return c, None, [], [], ex.thr
    sts = [x for x in [o.n] + o.c if x is not None]
    st = ex.merge_st(sts)
    if st is not None and inc is not None:
        ex.st = st
        inc()
        st = ex.st
    return c, st, o.b, o.r, ex.thr


def roots_changed(ex, a, b):
    """roots of state a whose value differs in b (locals created by the body are dropped)"""
    out = []
    for r, vb in b.store.items():
        va = a.store.get(r)
        if va is None:
            if isinstance(r, tuple) and r[0] in ("obj", "g"):
                save, ex.st = ex.st, I.St({}, a.pc)
                try:
                    va = ex.lazy_root(r)
                except Unsupported:
                    va = None
                ex.st = save
            if va is None:
                continue
        if va is not vb:
            out.append((r, va, vb))
    return out


def symbolic(ex, s, cond, body, inc):
    base = Snap(ex)
    line = s.get("line")
    depth = len(ex.ctx)
    k = z3.Int("k%d@%s" % (depth, s.get("loopid", "x")))
    hpre = "h%d$" % depth
    units = {}     # root -> [base value, shape]
    solved = {}    # leaf name -> function

    named = []     # (symbol, closed form): head values of the generic iteration that go by a name (see assign)

    def assign(K, hv, naming=False):
        """put the loop-head values for iteration K into ex.st; hv: use havoc symbols for unsolved leaves;
        naming: scalars whose closed form is a recurrence are called by their symbol, so that the summaries of inner
        loops depend on the value and not on its closed form"""
        del named[:]
        for r, (bv, sh) in units.items():
            def look(name, idx, srt):
                f = solved.get(name)
                if f is not None:
                    v = f(K, idx)
                    if naming and not idx and srt in ("int", "real", "bool") and is_sym(v) and opaque_form(v):
                        for h, w in named:
                            if w.eq(v):
                                return h
                        h = ex.uf(name, [], srt)
                        if not any(x[0].eq(h) for x in named):
                            named.append((h, v))
                        return h
                    return v
                if not hv:
                    raise Unsupported("no inductive form for %s in the loop at line %s" % (name, line))
                return ex.uf(name, [zx(i) for i in idx if is_sym(i) or not (isinstance(i, int) and False)], srt)
            ex.st.store[r] = build(ex, sh, lambda: bv, look, uname(r), ())

    def uname(r):
        return hpre + "_".join(str(x) for x in (r if isinstance(r, tuple) else (r,)))

    def trial(K, hv, assume=(), record=False, ctx=True):
        base.back(ex)
        ex.record = record
        ex.ctx = list(base.ctx) + [K]
        assign(K, hv, True)
        for h, v in named:
            ex.st = ex.st.assume(h == v)
        if is_sym(K):
            ex.st = ex.st.assume(ge(K, 0))
        for x in related:
            ex.st = ex.st.assume(under_named(relation(x, K)))
        ex.named = ex.named + [list(named)]
        try:
            return step(ex, cond, body, inc, assume)
        finally:
            ex.named = ex.named[:-1]

    related = []   # (m, n): the scalar m is at least the scalar n at every iteration; (m, number)

    def relation(x, K):
        a, b = [solved[y](K, ()) if isinstance(y, str) else y for y in x[:2]]
        return zx(ge(a, b)) if len(x) == 2 else zx(implies(ge(K, 1), ge(a, b)))

    def under_named(e):
        return z3.substitute(e, *[(zx(v), h) for h, v in named]) if named and is_sym(e) else e

    def relate(N=None):
        """order relations between carried integers, of which one has no transparent closed form, that the body preserves"""
        sc = sorted(n for n in inits if not inits[n][0] and inits[n][2] == "int" and n not in aliased)
        op = [n for n in sc if opaque_form(zx(solved[n](k, ())))]
        cand = [(m, n) for m in sc for n in sc + [0, 1] if m != n and (m in op or n in op)] if op else []
        base.back(ex)
        cand = [x if ex.known(ge(inits[x[0]][1], inits[x[1]][1] if isinstance(x[1], str) else x[1])) else x + (1,) for x in cand]
        while cand:
            related[:] = cand
            try:
                c, st, br, rt, th = trial(k, True, assume=[lt(k, N)] if N is not None else [])
            except Unsupported:
                cand = []
                break
            if st is None:
                cand = []
                break
            o = leaves(st)
            s = z3.Solver()
            s.set("timeout", 2000)
            s.add(*[f for f in ex.facts])
            s.add(*[zx(x) for x in st.pc if x is not True])
            keep = []
            for x in cand:
                s.push()
                s.add(zx(not_(ge(o[x[0]][1], o[x[1]][1] if isinstance(x[1], str) else x[1]))))
                if s.check() == z3.unsat:
                    keep.append(x)
                s.pop()
            if len(keep) == len(cand):
                break
            cand = keep
        else:
            cand = []
        related[:] = cand
        base.back(ex)

    def known_relations(st, N):
        """the relations, for every iteration (st: a state after the loop)"""
        if st is None or not related:
            return st
        j = z3.Int("j$r")
        for x in related:
            st = st.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, *([j <= zx(N)] if N is not None else [])), relation(x, j))))
        return st

    def unname(e):
        return simp(subst(e, named)) if named and is_sym(e) else e

    def leaves(st):
        """loop-carried values after the generic iteration"""
        out = {}
        for r, (bv, sh) in units.items():
            flat(ex, sh, st.store[r], uname(r), (), out)
        for n, (ix, tv, srt) in list(out.items()):
            out[n] = (ix, unname(tv), srt)
        return out

    def alias(n, m):
        return lambda K, ix: solved[m](K, ix) if m in solved else ex.uf(m, [], "int")

    def twin(n):
        """another integer that the scalar n equals at every iteration"""
        for m in sorted(inits):
            if m == n or inits[m][0] or inits[m][2] != "int" or aliased.get(m) == n or not same(simp(zx(inits[m][1])), simp(zx(inits[n][1]))):
                continue
            save = ex.st
            solved[n] = alias(n, m)
            try:
                st = trial(k, True)[1]
                if st is not None:
                    o = leaves(st)
                    if same(simp(zx(o[n][1])), simp(zx(o[m][1]))):
                        return m
            except Unsupported:
                pass
            finally:
                ex.st = save
                del solved[n]
        return None
    aliased = {}

    # 1. what changes
    for rnd in range(8):
        c, st, br, rt, th = trial(k, True)
        new = False
        if st is not None:
            head = base.st
            for r, va, vb in roots_changed(ex, head, st):
                bv = units[r][0] if r in units else va
                cur = ex_head(ex, base, units, solved, r, va, build, uname, k)
                sh = shape(ex, cur, vb)
                old = units[r][1] if r in units else ("const",)
                js = join(old, shape(ex, bv, cur)) if False else join(old, sh)
                if js != old and repr(js) != repr(old):
                    units[r] = [bv, js]
                    new = True
        if not new:
            break
    else:
        raise Unsupported("loop at line %s: the set of changed locations does not stabilise" % line)

    # 2. solve
    inits = {}
    for r, (bv, sh) in units.items():
        flat(ex, sh, bv, uname(r), (), inits)
    names = set(inits)
    cells = {}     # array leaf -> (W, j, p, pk): one cell written per iteration, W(j) the value written at iteration j
    early = []
    for rnd in range(16):
        uns = [n for n in names if n not in solved]
        if not uns and not cells:
            break
        c, st, br, rt, th = trial(k, True)
        if st is None:
            # the body never completes: nothing is carried
            for n in uns:
                idx, iv, srt = inits[n]
                solved[n] = (lambda K, ix, idx=idx, iv=iv: subst(iv, [(p, zx(v)) for p, v in zip(idx, ix) if is_sym(p)]))
            break
        outs = leaves(st)
        pre = len(base.st.pc) + 1 + (1 if is_sym(c) else 0) + len(named) + len(related)
        e_ = unname(simp(or_(*[and_(*x.pc[pre:]) for x in br + [y[0] for y in rt] + [y[0] for y in th]]))) if br or rt or th else False
        c = unname(c)
        if is_sym(e_) and not mentions_deep(ex, e_, set(uns) | set(w[0] for w in cells.values())):
            # the values carried on are those of an iteration that does not leave the loop
            hy = [zx(x) for x in base.st.pc if x is not True] + [k >= 0, z3.Not(e_)] + ([c] if is_sym(c) else [])
            for n, (ix, tv, srt) in list(outs.items()):
                if n not in solved:
                    outs[n] = (ix, drop_implied(simp(tv), hy), srt)
        progress = False
        if not early and not [n for n in uns if not inits[n][0]] and any(inits[n][0] for n in uns):
            early.append(True)
            relate()
            if related:
                continue
        for n in sorted(cells):
            W, js, p, pk = cells[n]
            f = solve_cell(ex, k, inits[n], under(c, simp(outs[n][1])), W, js, p, pk, set(uns) | set(cells[m][0] for m in cells if m != n))
            if f is not None:
                solved[n] = f
                del cells[n]
                progress = True
        if progress:
            continue
        for n in sorted(uns):
            idx, iv, srt = inits[n]
            idx2, tv, _ = outs[n]
            tv = under(c, simp(tv))
            if mentions_deep(ex, tv, set(x for x in uns if x != n) | set(w[0] for w in cells.values())):
                continue
            h = ex.uf(n, [zx(i) for i in idx], srt)
            more = tuple(relation(x, k) for x in related) + ((zx(c),) if is_sym(c) else ())
            f = solve_leaf(ex, k, idx, iv, tv, h, n, base.st.pc + (k >= 0,), more)
            if f is not None and not idx and srt == "int" and opaque_form(zx(f(k, ()))):
                m = twin(n)
                if m is not None:
                    aliased[n] = m
                    f = alias(n, m)
            if f is not None:
                solved[n] = f
                progress = True
                if srt in ("int",) and not idx:
                    break
        if not progress:
            # flags that keep their initial value as long as the loop goes on: greatest set preserved by the body
            guess = [n for n in uns if inits[n][2] == "bool" and not inits[n][0]]
            while guess:
                for n in guess:
                    solved[n] = (lambda K, ix, iv=inits[n][1]: iv)
                c, st, br, rt, th = trial(k, True)
                keep = []
                if st is not None:
                    outs = leaves(st)
                    ex.st = st
                    keep = [n for n in guess if ex.known(eq(under(c, simp(outs[n][1])), inits[n][1]))]
                for n in guess:
                    if n not in keep:
                        del solved[n]
                if len(keep) == len(guess):
                    break
                guess = keep
            progress = bool(guess)
        if not progress:
            # arrays of which every iteration writes one cell: the cell keeps its initial value before and W(j) after
            for n in sorted(uns):
                idx, iv, srt = inits[n]
                w = written_cell(k, idx, under(c, simp(outs[n][1])), ex.uf(n, [zx(i) for i in idx], srt), n)
                if w is not None:
                    W = n + "$W"
                    cells[n] = (W,) + w
                    solved[n] = cell_form(ex, inits[n], w[0], w[1], lambda j, ot, W=W, srt=srt: ex.uf(W, [zx(j)] + [zx(o) for o in ot], srt))
                    progress = True
        if not progress:
            base.back(ex)
            raise Unsupported("loop at line %s: no inductive form for %s" % (line, ", ".join(sorted(uns))[:200]))

    # 3. trip count
    base.back(ex)
    ex.ctx = list(base.ctx) + [k]
    assign(k, False)
    ex.st = ex.st.assume(k >= 0)
    ex.record = False
    c = simp(cond())
    pc_c = ex.st.pc
    ex.ctx = list(base.ctx)
    base.back(ex)
    N = None
    if c is not True:
        N = trip_count(ex, c, k) if is_sym(c) else None
        if N is None:
            j = z3.Int("j$n")
            N = canon_const(ex, "trip", z3.And(zx(c), k == k) if False else zx(subst(c, [(k, j)])), "int")
            # the definition is closed over j: abstract j away from the arguments
            hh, ps = canon(zx(c), (k,))
            N = ex.uf("trip$" + hh, ps, "int")
            ex.fact(N >= 0)
            ex.fact(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < N), zx(subst(c, [(k, j)])))))
            ex.fact(z3.Not(zx(subst(c, [(k, N)]))))
            ex.assumed.add("termination of the loop at %s:%s" % (ex.frames[-1].fn.get("qn", "?") if ex.frames else "?", line))
            for cj in conjuncts(c):
                b = trip_count(ex, cj, k)
                if b is not None:
                    ex.fact(N <= zx(b))
        N = simp(N)

    if N is not None:
        relate(N)

    # 4. generic iteration with the closed forms: safety obligations and preservation
    rng = [lt(k, N)] if N is not None else []
    c, st, br, rt, th = trial(k, False, assume=rng, record=base.rec)
    pre = len(base.st.pc) + 1 + (1 if is_sym(c) else 0) + len([a for a in rng if a is not True]) + len(named) + len(related)
    ecs = [and_(*x.pc[pre:]) for x in br] + [and_(*x[0].pc[pre:]) for x in rt] + [and_(*x[0].pc[pre:]) for x in th]
    e = unname(simp(or_(*ecs))) if ecs else False
    c = unname(c)
    newobs = ex.obls[base.nob:]
    if st is not None and base.rec:
        outs = {}
        for r, (bv, sh) in units.items():
            flat(ex, sh, st.store[r], uname(r), (), outs)
        ex.st = st
        goals = []
        for n, (idx, tv, srt) in sorted(outs.items()):
            want = solved[n](k + 1, idx)
            g = simp(eq(tv, want))
            if g is True:
                continue
            if "!" in "".join(d for d in fresh_names(zx(tv)) if d.startswith(("opaque", "uninit", "static"))):
                continue
            goals.append((n, g))
        for x in related:
            ex.oblige("loop invariant preserved: %s >= %s%s (line %s)" % tuple([y.split("$", 1)[1] if isinstance(y, str) else y for y in x[:2]] + [" after an iteration" if len(x) > 2 else "", line]), relation(x, k + 1), kind="inv", line=line)
        for n, g in goals:
            ex.oblige("loop invariant preserved: %s (line %s)" % (n.split("$", 1)[1], line), g, kind="inv", line=line)
        newobs = ex.obls[base.nob:]
    saved_obs = list(newobs)
    if e is not False:
        # obligations of a generic iteration hold when no earlier iteration left the loop
        j = z3.Int("j$e")
        noexit = z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < k), z3.Not(zx(subst(e, [(k, j)])))))
        for ob in saved_obs:
            ob.pc = ob.pc[:len(base.st.pc)] + (noexit,) + ob.pc[len(base.st.pc):]

    # 5. exits
    base.back(ex)
    res = Outs_()
    ends = []
    if e is False:
        if N is None:
            ex.thr = list(base.thr)
            raise I.PathEnd()
        assign(N, False)
        ex.record = False
        cond()
        ex.record = base.rec
        res.n = known_relations(ex.st, N)
        ex.obls += saved_obs
        return res
    hh, ps = canon(z3.And(zx(e), zx(c) if is_sym(c) else z3.BoolVal(True)), (k,))
    if N is not None and is_sym(N):
        ps = ps + [N]
    j = z3.Int("j$x")
    m = ex.uf("exit$" + hh, ps, "int")
    if N is not None:
        X = ex.uf("exited$" + hh, ps, "bool")
        # definitional: m is the first iteration that leaves the loop, X says whether there is one
        ex.fact(z3.Implies(X, z3.And(m >= 0, m < zx(N), zx(subst(e, [(k, m)])),
                                     z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < m), z3.Not(zx(subst(e, [(k, j)]))))))))
        ex.fact(z3.Implies(z3.Not(X), z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < zx(N)), z3.Not(zx(subst(e, [(k, j)])))))))
        base.back(ex)
        if ex.feasible(z3.Not(X), base.st.pc):
            assign(N, False)
            ex.st = ex.st.assume(z3.Not(X))
            ex.record = False
            cond()
            ex.record = base.rec
            ends.append(known_relations(ex.st, N))
        pre_as = (X, m >= 0, m < zx(N))
    else:
        ex.fact(z3.And(m >= 0, zx(subst(e, [(k, m)])),
                       z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < m), z3.Not(zx(subst(e, [(k, j)])))))))
        ex.assumed.add("termination of the loop at %s:%s" % (ex.frames[-1].fn.get("qn", "?") if ex.frames else "?", line))
        pre_as = (m >= 0,)
    base.back(ex)
    ex.record = False
    ex.ctx = list(base.ctx) + [m]
    for a in pre_as:
        ex.st = ex.st.assume(a)
    assign(m, False)
    c2, st2, br, rt, th = step(ex, cond, body, inc, ())
    ex.record = base.rec
    ex.ctx = list(base.ctx)
    ex.thr = list(base.thr) + list(th)
    ends += br
    res.r = list(rt)
    del ex.obls[base.nob:]
    ex.obls += saved_obs
    res.n = ex.merge_st(ends) if ends else None
    return res


def opaque_form(e):
    """does e contain a recurrence, a last write or an unknown trip count?"""
    seen, todo = set(), [e]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
        elif z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name().startswith(("rec$", "last$", "trip$")):
                return True
            todo.extend(x.children())
    return False


def ex_head(ex, base, units, solved, r, va, build_, uname, k):
    if r not in units:
        return va
    bv, sh = units[r]

    def look(name, idx, srt):
        return ex.uf(name, [zx(i) for i in idx], srt)
    return build_(ex, sh, lambda: bv, look, uname(r), ())


def under(c, e):
    """e simplified where condition c holds"""
    if not is_sym(c) or not is_sym(e):
        return e
    prs, todo, seen = [], conjuncts(z3.simplify(c)), set()
    for rnd in range(4):
        new = []
        for x in todo:
            neg_ = z3.is_not(x)
            a = x.arg(0) if neg_ else x
            if a.get_id() in seen or z3.is_true(x) or z3.is_false(x):
                continue
            seen.add(a.get_id())
            new.append((a, z3.BoolVal(not neg_)))
        if not new:
            break
        prs += new
        todo = [z for a, b in prs if a.num_args() > 0 for z in conjuncts(z3.simplify(
            z3.Not(z3.substitute(a, *[q for q in prs if not q[0].eq(a)])) if z3.is_false(b) else
            z3.substitute(a, *[q for q in prs if not q[0].eq(a)])))]
    return _const(z3.simplify(z3.substitute(z3.simplify(e), *sorted(prs, key=lambda q: -len(q[0].sexpr()))))) if prs else e


def drop_implied(e, hyps):
    """e without those conjuncts of its conditions that follow from hyps and the other conjuncts"""
    if not is_sym(e):
        return e
    prs, seen, todo = [], set(), [e]
    while todo:
        x = todo.pop()
        if x.get_id() in seen or not z3.is_app(x):
            continue
        seen.add(x.get_id())
        if z3.is_app_of(x, z3.Z3_OP_ITE):
            cs = conjuncts(x.arg(0))
            if 1 < len(cs) <= 5 and len(seen) < 400:
                keep = list(cs)
                for y in reversed(cs):
                    rest = [z for z in keep if not z.eq(y)]
                    if not rest:
                        continue
                    s = z3.Solver()
                    s.set("timeout", 300)
                    s.add(*hyps, *rest, z3.Not(y))
                    if s.check() == z3.unsat:
                        keep = rest
                if len(keep) < len(cs):
                    prs.append((x.arg(0), z3.And(*keep) if len(keep) > 1 else keep[0]))
        todo.extend(x.children())
    return _const(z3.simplify(z3.substitute(e, *prs))) if prs else e


def conjuncts(c):
    if z3.is_and(c):
        return [y for x in c.children() for y in conjuncts(x)]
    if z3.is_not(c) and z3.is_or(c.arg(0)):
        return [y for x in c.arg(0).children() for y in conjuncts(z3.Not(x))]
    return [c]


def fresh_names(e):
    out, seen, todo = [], set(), [e]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
        elif z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and "!" in x.decl().name():
                out.append(x.decl().name())
            todo.extend(x.children())
    return out
