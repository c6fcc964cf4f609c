"""Discharges the obligations: polynomial identities, definitional unfolding of loop summaries, z3 and cvc5."""
import time
import itertools
import subprocess
import tempfile
import os
from fractions import Fraction
import z3
from .values import *
from .values import _const
from .loops import canon, mentions, apps_of, fresh_names

Z3_MS = int(os.environ.get("VERIF_Z3_MS", "8000"))


# ------------------------------------------------------------------------------------------ polynomials
class NotPoly(Exception):
    pass


def padd(a, b):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + c
        if v == 0:
            r.pop(m, None)
        else:
            r[m] = v
    return r


def pmul(a, b, limit=4000):
    r = {}
    if len(a) * len(b) > 200000:
        raise NotPoly()
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = mmul(m1, m2)
            v = r.get(m, 0) + c1 * c2
            if v == 0:
                r.pop(m, None)
            else:
                r[m] = v
    if len(r) > limit:
        raise NotPoly()
    return r


def mmul(a, b):
    d = dict(a)
    for v, e in b:
        d[v] = d.get(v, 0) + e
    return tuple(sorted(d.items()))


ONE = {(): Fraction(1)}


class Norm:
    """rational-function normal form over the atoms of an expression"""

    def __init__(self, pos=()):
        self.pos = list(pos)  # terms known to be positive
        self.atoms = {}     # atom key -> expr
        self.memo = {}
        self.trig = {}      # arg canonical -> (sin atom, cos atom)
        self.dens = []      # quantities divided by implicitly
        self.sqrts = {}     # atom id -> poly of argument
        self.args = {}      # polynomial arguments of sin and cos met so far
        self.double = {}    # arguments whose half is also an argument: expanded by the double-angle formulas

    def atom(self, e):
        i = e.get_id()
        self.atoms[i] = e
        return i

    def arg_norm(self, e):
        """canonicalise the arguments of an uninterpreted application"""
        return e

    def go(self, e):
        """-> (num, den) polynomials"""
        if not is_sym(e):
            return ({(): Fraction(e)} if e != 0 else {}, ONE)
        i = e.get_id()
        if i in self.memo:
            return self.memo[i][0]
        r = self.go_(e)
        self.memo[i] = (r, e)
        return r

    def go_(self, e):
        c = _const(e)
        if is_num(c):
            return ({(): Fraction(c)} if c != 0 else {}, ONE)
        k = e.decl().kind()
        ch = e.children()
        if k == z3.Z3_OP_ADD:
            r = self.go(ch[0])
            for x in ch[1:]:
                r = self.radd(r, self.go(x))
            return r
        if k == z3.Z3_OP_SUB:
            r = self.go(ch[0])
            for x in ch[1:]:
                n, d = self.go(x)
                r = self.radd(r, ({m: -v for m, v in n.items()}, d))
            return r
        if k == z3.Z3_OP_UMINUS:
            n, d = self.go(ch[0])
            return ({m: -v for m, v in n.items()}, d)
        if k == z3.Z3_OP_MUL:
            r = self.go(ch[0])
            for x in ch[1:]:
                n, d = self.go(x)
                r = (self.red(pmul(r[0], n)), self.red(pmul(r[1], d)))
            return r
        if k == z3.Z3_OP_DIV:
            n1, d1 = self.go(ch[0])
            n2, d2 = self.go(ch[1])
            if not n2:
                raise NotPoly()
            return (self.red(pmul(n1, d2)), self.red(pmul(d1, n2)))
        if k == z3.Z3_OP_POWER and is_num(_const(ch[1])) and 0 <= _const(ch[1]) <= 8:
            r = (ONE, ONE)
            b = self.go(ch[0])
            for _ in range(int(_const(ch[1]))):
                r = (self.red(pmul(r[0], b[0])), self.red(pmul(r[1], b[1])))
            return r
        if k == z3.Z3_OP_TO_REAL:
            x = ch[0]
            if x.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS):
                return self.go(x)
            return ({((self.atom(x), 1),): Fraction(1)}, ONE)
        if e.decl().name() in ("sin", "cos") and len(ch) == 1:
            return self.trigatom(e)
        if e.decl().name() == "sqrt" and len(ch) == 1:
            n, d = self.go(ch[0])
            return self.sqrt_of(n, d, e)
        if k == z3.Z3_OP_UNINTERPRETED and ch:
            key = [e.decl().name()]
            for x in ch:
                if z3.is_int(x) or z3.is_real(x):
                    try:
                        n, d = self.go(x)
                        key.append((tuple(sorted(n.items())), tuple(sorted(d.items()))))
                    except NotPoly:
                        key.append(x.get_id())
                else:
                    key.append(x.get_id())
            return ({((self.keyid(tuple(key), e), 1),): Fraction(1)}, ONE)
        if z3.is_app_of(e, z3.Z3_OP_ITE):
            return ({((self.keyid(("ite", e.get_id()), e), 1),): Fraction(1)}, ONE)
        return ({((self.atom(e), 1),): Fraction(1)}, ONE)

    def keyid(self, key, e):
        if not hasattr(self, "kids"):
            self.kids = {}
        if key not in self.kids:
            self.kids[key] = -len(self.kids) - 1
            self.atoms[self.kids[key]] = e
        return self.kids[key]

    def sqrt_of(self, n, d, e):
        """normal form of the square root of n/d (a mathematical non-negative root)"""
        n, d = self.red(n), self.red(d)
        if set(n) == {()} and set(d) == {()}:
            q = Fraction(n[()]) / d[()]
            import math
            if q > 0:
                a, b = math.isqrt(q.numerator), math.isqrt(q.denominator)
                if a * a == q.numerator and b * b == q.denominator:
                    return ({(): Fraction(a, b)}, ONE)
        if not n:
            return ({}, ONE)
        if self.pos and len(n) == 1 and len(d) == 1:
            # the root of the square of a quantity that a hypothesis bounds above 0
            for t in self.pos:
                if uf_terms([t]).get("sqrt"):
                    continue
                try:
                    x, y = self.go(t)
                except NotPoly:
                    continue
                if x and self.red(pmul(pmul(x, x), d)) == self.red(pmul(n, pmul(y, y))):
                    return (x, y)
        key = ("sqrt", tuple(sorted(n.items())), tuple(sorted(d.items())))
        a = self.keyid(key, e)
        self.sqrts[a] = (n, d)
        return ({((a, 1),): Fraction(1)}, ONE)

    def trigatom(self, e):
        t = e.arg(0)
        if z3.is_app(t) and t.decl().name() == "atan2" and t.num_args() == 2:
            # sin(atan2(y, x)) = y / sqrt(x^2 + y^2)
            y, x = t.arg(0), t.arg(1)
            s2 = x * x + y * y
            r = self.sqrt_of(*self.go(s2), z3.Function("sqrt", z3.RealSort(), z3.RealSort())(s2))
            if not r[0]:
                raise NotPoly()
            self.dens.append(s2)
            n, d = self.go(y if e.decl().name() == "sin" else x)
            return (self.red(pmul(n, r[1])), self.red(pmul(d, r[0])))
        n, d = self.go(e.arg(0))
        if d != ONE:
            key = (tuple(sorted(n.items())), tuple(sorted(d.items())))
            sgn = 1
        else:
            # canonical sign: first monomial positive
            ms = sorted(n.items())
            sgn = 1
            if ms and ms[0][1] < 0:
                sgn = -1
                n = {m: -c for m, c in n.items()}
            key = (tuple(sorted(n.items())), ())
            if not n:
                return ((ONE if e.decl().name() == "cos" else {}), ONE)
            self.args[key[0]] = n
            if key[0] in self.double:
                h = self.double[key[0]]
                s, c = self.keyid(("sin", (h, ())), e), self.keyid(("cos", (h, ())), e)
                self.trig[s] = c
                if e.decl().name() == "sin":
                    return ({tuple(sorted(((s, 1), (c, 1)))): Fraction(2 * sgn)}, ONE)
                return ({((c, 2),): Fraction(2), (): Fraction(-1)}, ONE)
        s = self.keyid(("sin", key), e)
        c = self.keyid(("cos", key), e)
        self.trig[s] = c
        if e.decl().name() == "sin":
            return ({((s, 1),): Fraction(sgn)}, ONE)
        return ({((c, 1),): Fraction(1)}, ONE)

    def radd(self, a, b):
        n1, d1 = a
        n2, d2 = b
        if d1 == d2:
            return (padd(n1, n2), d1)
        if len(d1) == 1 and len(d2) == 1:
            # monomial denominators: their least common multiple
            (m1, c1), (m2, c2) = next(iter(d1.items())), next(iter(d2.items()))
            e1, e2 = dict(m1), dict(m2)
            l = {v: max(e1.get(v, 0), e2.get(v, 0)) for v in set(e1) | set(e2)}
            q1 = tuple(sorted((v, e - e1.get(v, 0)) for v, e in l.items() if e > e1.get(v, 0)))
            q2 = tuple(sorted((v, e - e2.get(v, 0)) for v, e in l.items() if e > e2.get(v, 0)))
            return (self.red(padd(pmul(n1, {q1: 1 / c1}), pmul(n2, {q2: 1 / c2}))), self.red({tuple(sorted(l.items())): Fraction(1)}))
        return (self.red(padd(pmul(n1, d2), pmul(n2, d1))), self.red(pmul(d1, d2)))

    def red(self, p):
        """reduce sin^2 -> 1 - cos^2 and sqrt(a)^2 -> a"""
        for _ in range(40):
            hit = None
            for m in p:
                for v, e in m:
                    if e >= 2 and (v in self.trig or v in self.sqrts and self.sqrts[v][1] == ONE):
                        hit = (m, v, e)
                        break
                if hit:
                    break
            if not hit:
                return p
            out = {}
            for m, c in p.items():
                done = False
                for v, e in m:
                    if e >= 2 and v in self.trig:
                        rest = tuple(x for x in m if x[0] != v)
                        if e > 2:
                            rest = mmul(rest, ((v, e - 2),))
                        out = padd(out, pmul({rest: c}, {(): Fraction(1), ((self.trig[v], 2),): Fraction(-1)}))
                        done = True
                        break
                    if e >= 2 and v in self.sqrts and self.sqrts[v][1] == ONE:
                        rest = tuple(x for x in m if x[0] != v)
                        if e > 2:
                            rest = mmul(rest, ((v, e - 2),))
                        out = padd(out, pmul({rest: c}, self.sqrts[v][0]))
                        done = True
                        break
                if not done:
                    out = padd(out, {m: c})
            p = out
        return p

    def zero(self, p):
        """is the numerator p identically 0, squares of roots of rational functions eliminated (p is scaled by their denominators)"""
        p = self.red(p)
        for v, (N, D) in list(self.sqrts.items()):
            if D == ONE or not p:
                continue
            k = max((dict(m).get(v, 0) // 2 for m in p), default=0)
            if not k:
                continue
            out = {}
            for m, c in p.items():
                e = dict(m).get(v, 0)
                rest = mmul(tuple(x for x in m if x[0] != v), ((v, e % 2),) if e % 2 else ())
                t = {rest: c}
                for _ in range(e // 2):
                    t = pmul(t, N, 20000)
                for _ in range(k - e // 2):
                    t = pmul(t, D, 20000)
                out = padd(out, t)
            p = self.red(out)
        return not p

    def is_zero(self, e):
        n, d = self.go(e)
        return self.zero(n)


def has_shared(es):
    return any(n.startswith("shared!") for n in uf_names(es))


def poly_equal(a, b, dens=None, pos=()):
    """a == b as rational functions (denominators are assumed non-zero: recorded by the caller); None when not decided"""
    try:
        nm = Norm(pos)
        n, d = nm.radd(nm.go(a), tuple_neg(nm.go(b)))
        r = nm.zero(n)
        if not r:
            # an angle and its half both occur: sin x = 2 sin(x/2) cos(x/2), cos x = 2 cos(x/2)^2 - 1
            tw = {}
            for k, q in nm.args.items():
                h = tuple(sorted((m, c / 2) for m, c in q.items()))
                if h in nm.args:
                    tw[k] = h
            if tw:
                n2 = Norm(pos)
                n2.double, n2.atoms, n2.kids = tw, nm.atoms, getattr(nm, "kids", {})
                n, d = n2.radd(n2.go(a), tuple_neg(n2.go(b)))
                nm, r = n2, n2.zero(n)
        if nm.dens:
            if dens is None:
                return None
            dens.extend(nm.dens)
        return r
    except (NotPoly, RecursionError):
        return None


def tuple_neg(r):
    return ({m: -v for m, v in r[0].items()}, r[1])


def has_div(e):
    todo, seen = [e], set()
    while todo:
        x = todo.pop()
        if not is_sym(x) or x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
            continue
        if z3.is_app_of(x, z3.Z3_OP_DIV) and not is_num(_const(x.arg(1))):
            return True
        todo.extend(x.children())
    return False


# ------------------------------------------------------------------------------------------ goal decomposition
EARLIER = [False]       # whether a conjunct may use the ones before it


def split_goal(hyps, goal, out, n=None):
    """-> list of (hyps, atomic goal)"""
    if z3.is_and(goal):
        done = []
        for c in goal.children():
            split_goal(hyps + done, c, out)
            if EARLIER[0] and len(goal.children()) <= 8 and z3.is_app(c) and c.num_args() <= 2 and not has_quant(c):
                done = done + [c]       # proved by then
        return
    if z3.is_implies(goal):
        split_goal(hyps + [goal.arg(0)], goal.arg(1), out)
        return
    if z3.is_quantifier(goal) and goal.is_forall():
        cs = [z3.Const("sk!%d!%s" % (next(_sk), goal.var_name(i)), goal.var_sort(i)) for i in range(goal.num_vars())]
        b = z3.substitute_vars(goal.body(), *reversed(cs))
        split_goal(hyps, b, out)
        return
    if z3.is_or(goal):
        # a disjunction containing a conjunction or a quantifier: assume the negations of the literals
        big = [c for c in goal.children() if z3.is_and(c) or z3.is_quantifier(c) and c.is_forall() or z3.is_implies(c)]
        if not big:
            # or a single equation of numbers
            big = [c for c in goal.children() if z3.is_eq(c) and z3.is_arith(c.arg(0))]
        if len(big) == 1:
            rest = [z3.Not(c) for c in goal.children() if not c.eq(big[0])]
            split_goal(hyps + rest, big[0], out)
            return
    if z3.is_not(goal) and z3.is_or(goal.arg(0)):
        for c in goal.arg(0).children():
            split_goal(hyps, z3.Not(c), out)
        return
    if z3.is_not(goal) and z3.is_quantifier(goal.arg(0)) and goal.arg(0).is_exists():
        q = goal.arg(0)
        cs = [z3.Const("sk!%d!%s" % (next(_sk), q.var_name(i)), q.var_sort(i)) for i in range(q.num_vars())]
        split_goal(hyps, z3.Not(z3.substitute_vars(q.body(), *reversed(cs))), out)
        return
    if z3.is_eq(goal) and z3.is_bool(goal.arg(0)):
        a, b = goal.arg(0), goal.arg(1)
        if has_quant(a) or has_quant(b):
            split_goal(hyps + [a], b, out)
            split_goal(hyps + [b], a, out)
            return
    if z3.is_app_of(goal, z3.Z3_OP_ITE) and z3.is_bool(goal):
        split_goal(hyps + [goal.arg(0)], goal.arg(1), out)
        split_goal(hyps + [z3.Not(goal.arg(0))], goal.arg(2), out)
        return
    out.append((hyps, goal))


_sk = itertools.count()


def has_quant(e):
    todo, seen = [e], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return True
        todo.extend(x.children())
    return False


def uf_terms(es):
    out, seen, todo = {}, set(), list(es)
    while todo:
        x = todo.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            continue
        if z3.is_app(x):
            d = x.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED:
                out.setdefault(d.name(), []).append(x)
            todo.extend(x.children())
    return out


def math_axioms(terms):
    ax = []
    sc = {}
    for f in ("sin", "cos"):
        for t in terms.get(f, []):
            sc.setdefault(t.arg(0).get_id(), t.arg(0))
    R = z3.RealSort()
    S, C = z3.Function("sin", R, R), z3.Function("cos", R, R)
    args = list(sc.values())[:24]
    for a in args:
        ax.append(S(a) * S(a) + C(a) * C(a) == 1)
        ax.append(z3.And(S(a) <= 1, S(a) >= -1, C(a) <= 1, C(a) >= -1))
        ax.append(z3.Implies(a == 0, z3.And(S(a) == 0, C(a) == 1)))
        ax.append(z3.And(S(-a) == -S(a), C(-a) == C(a)))
    for a, b in itertools.combinations(args, 2):
        for x, y in ((a, b), (b, a)):
            if simp(x - 2 * y) == 0:
                ax.append(z3.And(S(x) == 2 * S(y) * C(y), C(x) == 1 - 2 * S(y) * S(y), C(x) == 2 * C(y) * C(y) - 1))
        ax.append(z3.Implies(a == -b, z3.And(S(a) == -S(b), C(a) == C(b))))
    for t in terms.get("sqrt", []):
        a = t.arg(0)
        ax.append(z3.Implies(a >= 0, z3.And(t >= 0, t * t == a)))
        ax.append(z3.Implies(a > 0, t > 0))
    ts = terms.get("sqrt", [])[:8]
    for x, y in itertools.combinations(ts, 2):
        ax.append(z3.Implies(z3.And(x.arg(0) >= 0, y.arg(0) >= 0), (x < y) == (x.arg(0) < y.arg(0))))
    E = z3.Function("exp", R, R)
    es = terms.get("exp", [])[:12]
    for t in terms.get("log", [])[:6]:
        a = t.arg(0)
        ax.append(z3.Implies(a > 0, z3.And(E(t) == a, (a < 1) == (t < 0), (a == 1) == (t == 0))))
        es = es + [E(t)]
    for x, y in itertools.combinations(terms.get("log", [])[:6], 2):
        ax.append(z3.Implies(z3.And(x.arg(0) > 0, y.arg(0) > 0), (x < y) == (x.arg(0) < y.arg(0))))
    for t in es:
        ax.append(t > 0)
        ax.append(z3.Implies(t.arg(0) <= 0, t <= 1))
        ax.append(z3.Implies(t.arg(0) >= 0, t >= 1))
    for x, y in itertools.combinations(es, 2):
        ax.append(z3.And((x < y) == (x.arg(0) < y.arg(0)), (y < x) == (y.arg(0) < x.arg(0))))
    ths = terms.get("tanh", [])[:8]
    for t in ths:
        ax.append(z3.And(t > -1, t < 1, (t.arg(0) > 0) == (t > 0), (t.arg(0) == 0) == (t == 0)))
    for x, y in itertools.combinations(ths, 2):
        ax.append((x < y) == (x.arg(0) < y.arg(0)))
    for t in terms.get("acos", []):
        ax.append(z3.Implies(z3.And(t.arg(0) <= 1, t.arg(0) >= -1), z3.And(C(t) == t.arg(0), t >= 0)))
    for t in terms.get("asin", []):
        ax.append(z3.Implies(z3.And(t.arg(0) <= 1, t.arg(0) >= -1), S(t) == t.arg(0)))
    for t in terms.get("atan2", []):
        y, x = t.arg(0), t.arg(1)
        r = z3.Function("sqrt", R, R)(x * x + y * y)
        ax.append(z3.Implies(x * x + y * y > 0, z3.And(r > 0, r * r == x * x + y * y, S(t) * r == y, C(t) * r == x)))
    for t in terms.get("floor", []):
        a = t.arg(0)
        ax.append(z3.And(t <= a, a < t + 1, z3.ToReal(z3.ToInt(t)) == t))
    for t in terms.get("int2str", []):
        ax.append(z3.Length(t) >= 1)
    i2 = terms.get("int2str", [])[:8]
    for x, y in itertools.combinations(i2, 2):
        ax.append((x == y) == (x.arg(0) == y.arg(0)))
    return ax


def summary_axioms(ex, terms, depth=2):
    """definitional unfoldings of the loop summaries occurring in the query"""
    ax, work, seen = [], [], set()
    for nm, ts in terms.items():
        if nm in ex.sums:
            for t in ts:
                work.append((t, depth))
    n = 0
    while work and n < 160:
        t, d = work.pop(0)
        if t.get_id() in seen or d <= 0:
            continue
        seen.add(t.get_id())
        n += 1
        D = ex.sums[t.decl().name()]
        a = t.children()
        if D.kind == "sum":
            lo, hi, ps = a[0], a[1], a[2:]
            z = z3.RealVal(0) if z3.is_real(t) else z3.IntVal(0)
            ax.append(z3.Implies(hi <= lo, t == z))
            prev = t.decl()(lo, simp_z(hi - 1), *ps)
            ax.append(z3.Implies(hi > lo, t == prev + D.at(simp_z(hi - 1), ps)))
            if d > 1:
                nxt = t.decl()(simp_z(lo + 1), hi, *ps)
                ax.append(z3.Implies(hi > lo, t == D.at(lo, ps) + nxt))
            new = [prev]
        elif D.kind == "last":
            K, ix, ps = a[0], a[1:1 + len(D.idx)], a[1 + len(D.idx):]
            ax.append(z3.And(t >= -1, z3.Implies(K >= 0, t < z3.If(K > 0, K, z3.IntVal(0)))))
            ax.append(z3.Implies(K <= 0, t == -1))
            ax.append(z3.Implies(t >= 0, D.at(t, ps, ix)))
            j = z3.Int("j$l")
            ax.append(z3.ForAll([j], z3.Implies(z3.And(j > t, j < K, j >= 0), z3.Not(D.at(j, ps, ix)))))
            prev = t.decl()(simp_z(K - 1), *a[1:])
            ax.append(z3.Implies(K > 0, t == z3.If(D.at(simp_z(K - 1), ps, ix), K - 1, prev)))
            new = [prev]
        else:
            K, ix, ps = a[0], a[1:1 + len(D.idx)], a[1 + len(D.idx):]
            x, ini = D.extra
            prs = list(zip(D.params, ps)) + list(zip(D.idx, ix))
            ax.append(z3.Implies(K <= 0, t == z3.substitute(ini, *prs)))
            prev = t.decl()(simp_z(K - 1), *a[1:])
            body = z3.substitute(D.body, (x, prev), (D.k, simp_z(K - 1)), *prs)
            ax.append(z3.Implies(K > 0, t == body))
            new = [prev]
        for nt in uf_terms(ax[-2:] + new).items():
            if nt[0] in ex.sums:
                for y in nt[1]:
                    if y.get_id() not in seen:
                        work.append((y, d - 1 if y.decl().name() == t.decl().name() else d - 1))
    return ax


def free_ints(e):
    out, seen, todo = [], set(), [e]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and z3.is_int(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and (x.num_args() == 0 or x.decl().name().startswith("trip$")):
            out.append(x)
        todo.extend(x.children())
    return sorted(out, key=lambda x: (not x.decl().name().startswith("trip$"), "@" not in x.decl().name(), x.decl().name()))


def simp_z(x):
    return z3.simplify(x)


class Prover:
    def __init__(self, ex, extra=()):
        self.ex = ex
        self.extra = list(extra)
        self.stats = {}
        self.time = 0.0
        self.cong_cache = {}
        self.used_div = False

    # ---------------------------------------------------------------- one obligation
    def prove(self, pc, goal, ms=None):
        """-> (verdict, model, backend, tainted)"""
        t0 = time.time()
        try:
            g = zx(goal)
            parts = []
            parts2 = None
            split_goal([zx(x) for x in pc if x is not True], g, parts)
            backs, res, model, taint = set(), "proved", None, False
            for i, (hy, a) in enumerate(parts):
                v, m, b, tn = self.atom(hy, a, ms)
                if v != "proved" and i:
                    if parts2 is None:
                        parts2 = []
                        try:
                            EARLIER[0] = True
                            split_goal([zx(x) for x in pc if x is not True], g, parts2)
                        finally:
                            EARLIER[0] = False
                    if len(parts2) == len(parts) and len(parts2[i][0]) > len(hy):
                        v2, m2, b2, tn2 = self.atom(*parts2[i], ms)
                        if v2 == "proved":
                            v, m, b, tn = v2, m2, b2, tn2
                backs.add(b)
                if v != "proved":
                    res, model, taint = v, m, tn
                    if v == "refuted":
                        break
                    break
            return res, model, "+".join(sorted(x for x in backs if x)), taint
        finally:
            self.time += time.time() - t0

    def atom(self, hyps, goal, ms=None):
        g = z3.simplify(goal)
        if z3.is_true(g):
            return "proved", None, "simplifier", False
        if any(z3.is_false(z3.simplify(h)) for h in hyps):
            return "proved", None, "simplifier", False
        if z3.is_eq(goal) and (z3.is_real(goal.arg(0)) or z3.is_int(goal.arg(0))):
            r = self.poly(hyps, goal.arg(0), goal.arg(1))
            if r:
                return "proved", None, "polynomial normal form", False
            g2 = self.known_branches(hyps, goal)
            if g2 is not None and z3.is_eq(g2) and self.poly(hyps, g2.arg(0), g2.arg(1)):
                return "proved", None, "polynomial normal form", False
            # through a term that a hypothesis equates with one of the sides
            for h in hyps:
                if z3.is_eq(h) and z3.is_arith(h.arg(0)):
                    for x, y in ((h.arg(0), h.arg(1)), (h.arg(1), h.arg(0))):
                        for k in (0, 1):
                            if goal.arg(k).eq(x) and not goal.arg(1 - k).eq(y) and not is_num(_const(x)) and self.poly(hyps, y, goal.arg(1 - k)):
                                return "proved", None, "polynomial normal form", False
        if z3.is_eq(goal) and z3.is_real(goal.arg(0)) and nonlinear([goal]) and self.branches(hyps, goal):
            return "proved", None, "case split + polynomial normal form", False
        return self.smt(hyps, goal, ms)

    def branches(self, hyps, goal, limit=400):
        """an equation between piecewise polynomials: every consistent choice of branches, then the normal form"""
        lin = [h for h in hyps + self.relevant(hyps + [goal]) if not nonlinear([h]) and not has_quant(h)]
        sv = z3.Solver()
        sv.set("timeout", 1000)
        for h in lin:
            sv.add(h)
        count, memo = [0], {}

        def top(e):
            """condition of the smallest branch"""
            todo, seen, best = [e], set(), None
            while todo:
                x = todo.pop()
                if x.get_id() in seen:
                    continue
                seen.add(x.get_id())
                if z3.is_app_of(x, z3.Z3_OP_ITE) and z3.is_arith(x):
                    k = size(x.arg(0))
                    if best is None or k < best[0]:
                        best = (k, x.arg(0))
                todo.extend(x.children())
            return best and best[1]

        sizes = {}

        def size(e):
            r = sizes.get(e.get_id())
            if r is None:
                r = sizes[e.get_id()] = (e, 1 + sum(size(x) for x in e.children()))
            return r[1]

        def go(g):
            count[0] += 1
            if count[0] > limit:
                return False
            if z3.is_true(g):
                return True
            if not z3.is_eq(g) or not z3.is_arith(g.arg(0)):
                return False
            if g.get_id() in memo:
                return memo[g.get_id()][1]
            c = top(g)
            if c is None or count[0] == 1:
                ok = self.poly(hyps, g.arg(0), g.arg(1))
                if c is None:
                    memo[g.get_id()] = (g, ok)
                if ok or c is None:
                    return ok
            vs = []
            for v in (True, False):
                sv.push()
                sv.add(c if v else z3.Not(c))
                if sv.check() != z3.unsat:
                    vs.append(v)
                sv.pop()
            if len(vs) < 2:
                count[0] -= 1
            for v in vs:
                sv.push()
                sv.add(c if v else z3.Not(c))
                ok = go(pick(g, c, v))
                sv.pop()
                if not ok:
                    return False
            return True

        def pick(g, c, v):
            """g with the branches on c resolved"""
            x, y = [z3.simplify(z3.substitute(e, (c, z3.BoolVal(v)))) for e in g.children()]
            if x.eq(y):
                return z3.BoolVal(True)
            g = x == y
            if v:
                for e in c.children() if z3.is_and(c) else [c]:
                    if z3.is_eq(e) and z3.is_int(e.arg(0)):
                        x, y = e.arg(0), e.arg(1)
                        if x.num_args() or is_num(_const(x)):
                            x, y = y, x
                        if not x.num_args() and not is_num(_const(x)) and not contains(y, x):
                            g = z3.substitute(g, (x, y))
            return g
        a, b = self.shared(goal.arg(0), goal.arg(1))
        if a is not None:
            if go(a == b):
                return True
            count[0] = 0
        return go(goal)

    def poly(self, hyps, a, b):
        pos = [x for x in self.nonzeros(hyps, True)][:4] if any(t.decl().name() in ("sqrt", "atan2") for ts in uf_terms([a, b]).values() for t in ts) else ()
        for x, y in ((a, b), self.abstract(a, b), self.shared(a, b), (z3.simplify(a), z3.simplify(b))):
            if x is None:
                continue
            dens = []
            if poly_equal(x, y, dens, pos):
                if any(n.startswith("abs!") for n in uf_names([x, y])) or x is not a and has_shared([x, y]):
                    x, y = a, b
                    if dens:
                        continue
                if not (has_div(x) or has_div(y) or dens):
                    return True
                if self.dens_nonzero(hyps, [x, y], dens):
                    return True
        return False

    def abstract(self, a, b):
        """the compound quantities whose squares are summed under a root, as opaque constants"""
        sub = []
        for t in uf_terms([a, b]).get("sqrt", []):
            todo = [t.arg(0)]
            while todo:
                x = todo.pop()
                if z3.is_app_of(x, z3.Z3_OP_ADD):
                    todo.extend(x.children())
                elif z3.is_app_of(x, z3.Z3_OP_MUL) and x.num_args() == 2 and x.arg(0).eq(x.arg(1)) and x.arg(0).num_args() > 1:
                    sub.append((x.arg(0), z3.Real("abs!%d" % x.arg(0).get_id())))
        if not sub:
            return None, None
        # the largest ones only (the others occur inside them)
        big = [(x, v) for x, v in sub if not any(y is not x and not y.eq(x) and contains(y, x) for y, _ in sub)]
        return z3.substitute(a, *big), z3.substitute(b, *big)

    def shared(self, a, b):
        """the largest sums that occur on both sides, as opaque constants"""
        ids, todo, n = set(), [a], 0
        while todo:
            x = todo.pop()
            if x.get_id() in ids:
                continue
            ids.add(x.get_id())
            todo.extend(x.children())
        sub, seen, todo = [], set(), list(b.children()) if b.num_args() else []
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if x.get_id() in ids and z3.is_real(x) and (z3.is_app_of(x, z3.Z3_OP_ADD) or z3.is_app_of(x, z3.Z3_OP_SUB)):
                sub.append((x, z3.Real("shared!%d" % x.get_id())))
                continue
            todo.extend(x.children())
        if not sub:
            return None, None
        return z3.substitute(a, *sub), z3.substitute(b, *sub)

    def dens_nonzero(self, hyps, es, more=()):
        """every symbolic divisor is non-zero under the hypotheses, or both sides have the same divisors"""
        ds, todo, seen = {}, list(es), set()
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_app_of(x, z3.Z3_OP_DIV) and not is_num(_const(x.arg(1))):
                ds[x.arg(1).get_id()] = x.arg(1)
            todo.extend(x.children())
        for d in more:
            ds[d.get_id()] = d
        for d in ds.values():
            # d is a square or root already known to be non-zero
            if any(poly_equal(d * d, x) or poly_equal(d, x) or poly_equal(d, x * x) for x in self.nonzeros(hyps)):
                continue
            v, _, _, _ = self.smt(hyps, d != 0, 1500)
            if v != "proved":
                return False
        return True

    def nonzeros(self, hyps, positive=False):
        """terms the hypotheses bound away from 0 (or above it)"""
        out = []
        for h in hyps:
            if z3.is_app(h) and h.num_args() == 2 and z3.is_arith(h.arg(0)):
                a, b, k = h.arg(0), _const(h.arg(1)), h.decl().kind()
                if is_num(_const(h.arg(0))):
                    a, b = h.arg(1), _const(h.arg(0))
                    k = {z3.Z3_OP_GT: z3.Z3_OP_LT, z3.Z3_OP_GE: z3.Z3_OP_LE, z3.Z3_OP_LT: z3.Z3_OP_GT, z3.Z3_OP_LE: z3.Z3_OP_GE}.get(k)
                if is_num(b) and (k == z3.Z3_OP_GT and b >= 0 or k == z3.Z3_OP_GE and b > 0 or
                                   not positive and (k == z3.Z3_OP_LT and b <= 0 or k == z3.Z3_OP_LE and b < 0)):
                    out.append(a)
        return out

    def facts(self):
        return self.ex.facts + self.extra

    def relevant(self, es):
        """quantified facts about symbols that occur in the query (transitively)"""
        fs = self.facts()
        names = set(uf_names(es))
        out, pend = [], []
        for f in fs:
            pend.append((f, set(uf_names([f]))))
        changed = True
        while changed:
            changed = False
            rest = []
            for f, ns in pend:
                if ns & names or not ns:
                    out.append(f)
                    if len(ns) < 40:
                        if not ns <= names:
                            names |= ns
                            changed = True
                else:
                    rest.append((f, ns))
            pend = rest
        return out

    def known_branches(self, hyps, goal):
        """the goal with the conditions that a hypothesis states (or denies) resolved; None when there is none"""
        keep = [z3.simplify(h) for h in hyps]
        known = {h.get_id() for h in keep}
        g = goal
        for _ in range(8):
            sub, todo, seen = [], [g], set()
            while todo:
                x = todo.pop()
                if x.get_id() in seen:
                    continue
                seen.add(x.get_id())
                if z3.is_app_of(x, z3.Z3_OP_ITE):
                    if z3.simplify(x.arg(0)).get_id() in known:
                        sub.append((x, x.arg(1)))
                    elif z3.simplify(z3.Not(x.arg(0))).get_id() in known:
                        sub.append((x, x.arg(2)))
                    if sub:
                        break
                todo.extend(x.children())
            if not sub:
                break
            g = z3.substitute(g, *sub)
        return None if g is goal else g

    def smt(self, hyps, goal, ms=None):
        ms = ms or Z3_MS
        base = list(hyps) + [z3.Not(goal)]
        fs = self.relevant(base)
        allf = base + fs
        terms = uf_terms(allf)
        ax = math_axioms(terms)
        hassum = any(n in self.ex.sums for n in terms) or any(n in self.ex.sums for n in uf_names(allf))
        quant = any(has_quant(x) for x in allf)
        tainted = bool(hassum or quant or ax or nonlinear(allf))
        if hassum and quant:
            at = free_ints(goal)
            ks = [x for x in at if x.num_args() == 0][:4]
            r, m = self.z3(self.light(hyps, fs, [z3.Not(goal)] + ax, [x for x in at if x.num_args()][:3] + ks + [z3.simplify(x + 1) for x in ks[:1]]), 1500)
            if r == "unsat":
                return "proved", None, "z3 (instantiated)", False
        # 1. plain
        r, m = self.z3(allf + ax, min(ms, 3000) if hassum else ms)
        if r == "unsat":
            return "proved", None, "z3", False
        if r == "sat" and not tainted:
            return "refuted", m, "z3", False
        if hassum:
            sa = summary_axioms(self.ex, terms)
            ax2 = ax + sa
            r2, m2 = self.z3(allf + ax2, ms)
            if r2 == "unsat":
                return "proved", None, "z3 (summaries unfolded)", False
            ax1 = ax2
            piv = self.pivots(hyps, allf + ax2, fs)
            mono = piv + self.monotone(allf + ax2 + piv)
            if mono:
                ax2 = ax2 + mono
                r2, m2 = self.z3(allf + ax2, ms)
                if r2 == "unsat":
                    return "proved", None, "z3 (partial sums)", False
            lw = self.lastat(hyps, base, fs, ax2)
            if lw:
                # the same with the last writer replaced, and the quantified hypotheses at the indices concerned only
                g = goal
                for e in lw:
                    g = z3.substitute(g, (e.arg(0), e.arg(1)))
                at = []
                for e in lw:
                    for x in (e.arg(1), e.arg(0).arg(0)):
                        if not any(x.eq(y) for y in at):
                            at.append(x)
                if self.z3(self.light(hyps, fs, [z3.simplify(z3.Not(g))], at[:4]), ms)[0] == "unsat":
                    return "proved", None, "z3 (last writer)", False
                r2, m2 = self.z3(allf + ax2 + lw, ms)
                if r2 == "unsat":
                    return "proved", None, "z3 (last writer)", False
                ax2 = ax2 + lw
            cg = self.congruences(hyps, base, terms, sa, fs)
            if cg:
                if ax1 is not ax2 and self.z3(allf + ax1 + cg, ms)[0] == "unsat":
                    return "proved", None, "z3 (summary congruence)", False
                ax3 = ax2 + cg
                r3, m3 = self.z3(allf + ax3, ms)
                if r3 == "unsat":
                    return "proved", None, "z3 (summary congruence)", False
                m = m3 or m
                ax2 = ax3
            mq = self.between(allf + ax2)
            if mq:
                r3, m3 = self.z3(allf + ax2 + mq, ms)
                if r3 == "unsat":
                    return "proved", None, "z3 (partial sums, quantified)", False
        elif r != "sat":
            pass
        if r == "unknown" or tainted:
            if self.cvc5(allf + ax, 6):
                return "proved", None, "cvc5", False
        return ("unknown", m, "z3", True)

    def z3(self, fs, ms):
        s = z3.Solver()
        s.set("timeout", int(ms))
        for f in fs:
            s.add(f)
        r = str(s.check())
        m = None
        if r == "sat":
            try:
                m = s.model()
            except z3.Z3Exception:
                m = None
        return r, m

    def cvc5(self, fs, secs):
        s = z3.Solver()
        for f in fs:
            s.add(f)
        txt = s.to_smt2()
        if "seq." in txt or len(txt) > 400000:
            return False
        fd, p = tempfile.mkstemp(suffix=".smt2")
        try:
            with os.fdopen(fd, "w") as f:
                f.write("(set-logic ALL)\n" + txt)
            try:
                r = subprocess.run(["cvc5", "--tlimit=%d" % (secs * 1000), "--nl-ext-tplanes", p], stdout=subprocess.PIPE,
                                   stderr=subprocess.DEVNULL, text=True, timeout=secs + 5)
            except (subprocess.TimeoutExpired, FileNotFoundError):
                return False
            return r.stdout.strip().split("\n")[0] == "unsat"
        finally:
            os.unlink(p)

    # ---------------------------------------------------------------- sums
    def skolem(self):
        self.nsk = getattr(self, "nsk", 0) + 1
        return z3.Int("q!mono%d" % self.nsk)

    def between(self, fs):
        """two partial sums of terms that are not negative differ exactly when some term between is positive"""
        groups = {}
        for nm, ts in uf_terms(fs).items():
            if nm in self.ex.sums and self.ex.sums[nm].kind == "sum" and (leaf_range(self.ex.sums[nm].body) or (-1,))[0] >= 0:
                for t in ts:
                    groups.setdefault((nm, t.arg(0).get_id()) + tuple(x.get_id() for x in t.children()[2:]), []).append(t)
        out = []
        for ts in groups.values():
            D = self.ex.sums[ts[0].decl().name()]
            for a, b in itertools.permutations(ts[:7], 2):
                lo, ha, hb, ps = a.arg(0), a.arg(1), b.arg(1), a.children()[2:]
                q, j = self.skolem(), z3.Int("j!between")
                out.append(z3.Or(ha < lo, b <= a, z3.And(q >= ha, q < hb, D.at(q, ps) > 0)))
                out.append(z3.Or(ha < lo, ha > hb, z3.ForAll([j], z3.Implies(z3.And(j >= ha, j < hb), a + D.at(j, ps) <= b))))
        return out

    def monotone(self, fs):
        """partial sums of terms that are not negative grow (skolemised: either some term is negative or they do)"""
        groups = {}
        for nm, ts in uf_terms(fs).items():
            if nm in self.ex.sums and self.ex.sums[nm].kind == "sum":
                for t in ts:
                    groups.setdefault((nm, t.arg(0).get_id()) + tuple(x.get_id() for x in t.children()[2:]), []).append(t)
        out = []
        for ts in groups.values():
            D = self.ex.sums[ts[0].decl().name()]
            r = leaf_range(D.body) if z3.is_int(ts[0]) else None
            if r is not None:
                # each term lies between two constants
                for a in ts[:7]:
                    lo, hi = a.arg(0), a.arg(1)
                    out.append(z3.Or(hi < lo, z3.And(a >= r[0] * (hi - lo), a <= r[1] * (hi - lo))))
            for a in ts[:7]:
                if not z3.is_int_value(a.arg(1)):
                    q, lo, ps = self.skolem(), a.arg(0), a.children()[2:]
                    out.append(z3.Or(z3.And(q >= lo, q < a.arg(1), D.at(q, ps) < 0), a >= 0))
            if len(ts) < 2:
                continue
            for a, b in itertools.permutations(ts[:7], 2):
                D = self.ex.sums[a.decl().name()]
                lo, ha, hb, ps = a.arg(0), a.arg(1), b.arg(1), a.children()[2:]
                if z3.is_int_value(ha) and z3.is_int_value(hb):
                    continue
                q = self.skolem()
                neg = lambda l: z3.And(q >= l, q < hb, q >= lo, D.at(q, ps) < 0)
                out.append(z3.Or(ha < lo, ha >= hb, neg(ha + 1), a + D.at(ha, ps) <= b))
                q = self.skolem()
                neg = lambda l: z3.And(q >= l, q < hb, q >= lo, D.at(q, ps) < 0)
                out.append(z3.Or(ha > hb, neg(ha), a <= b))
        return out

    def light(self, hyps, fs, own, at):
        """the linear hypotheses, the quantified ones instantiated at the given integers only"""
        own = list(own)
        for h in list(hyps) + fs:
            if z3.is_quantifier(h) and h.is_forall() and h.num_vars() == 1 and h.var_sort(0) == z3.IntSort():
                own += [z3.substitute_vars(h.body(), x) for x in at]
        own += [f for f in fs if not has_quant(f) and not nonlinear([f])]
        recs = {nm: [x for x in l if z3.is_int_value(x.arg(0))] for nm, l in uf_terms(own).items()
                if nm in self.ex.sums and self.ex.sums[nm].kind == "rec"}
        own += summary_axioms(self.ex, recs, 1)
        own += self.monotone(own)
        own += [f for f in fs if z3.is_quantifier(f) and f.is_forall() and f.num_vars() == 1 and (z3.is_ge(f.body()) or z3.is_le(f.body()))
                and all(z3.is_int_value(x) or (z3.is_app(x) and x.num_args() == 1 and z3.is_var(x.arg(0))) for x in f.body().children())]
        return [h for h in hyps if not nonlinear([h]) and not has_quant(h)] + own

    def lastat(self, hyps, base, fs, ax):
        """the last index satisfying a guard is one of the terms the guard is compared with"""
        out = []
        ls = [t for nm, l in uf_terms(base).items() if nm in self.ex.sums and self.ex.sums[nm].kind == "last" for t in l]
        for t in ls[:4]:
            for a in t.children()[1:]:
                if not z3.is_int(a) or z3.is_int_value(a) or contains(a, t):
                    continue
                D = self.ex.sums[t.decl().name()]
                n = 1 + len(D.idx)
                inst = [D.at(x, t.children()[n:], t.children()[1:n]) for x in (t, a)]
                inst[1] = z3.Implies(z3.And(a > t, a < t.arg(0), a >= 0), z3.Not(inst[1]))
                inst += self.monotone(inst)
                r, _ = self.z3([h for h in hyps if not nonlinear([h])] + fs + ax + inst[1:] + [t != a], 2500)
                if r != "unsat":
                    K = t.arg(0)
                    own = inst[1:] + [z3.And(t >= -1, z3.Implies(K >= 0, t < z3.If(K > 0, K, z3.IntVal(0)))), z3.Implies(t >= 0, inst[0])]
                    r, _ = self.z3(self.light(hyps, fs, own + [t != a], (t, a)), 4000)
                if r == "unsat":
                    out.append(t == a)
                    break
        return out

    def pivots(self, hyps, es, fs):
        """sums whose terms agree except at one index: they differ by the difference of those two terms"""
        ts = [t for nm, l in uf_terms(es).items() if nm in self.ex.sums and self.ex.sums[nm].kind == "sum" for t in l]
        reps = {}
        for t in ts:
            reps.setdefault((t.decl().name(),) + tuple(x.get_id() for i, x in enumerate(t.children()) if i != 1), []).append(t)
        out, k = [], z3.Int("k!piv")
        for x in list(reps.values())[:6]:
            # a single term that is not zero
            a = x[0]
            A, pa = self.ex.sums[a.decl().name()], a.children()[2:]
            b = A.at(k, pa)
            for e in eq_terms(b, k)[:3]:
                if self.sub(hyps + [k >= a.arg(0), k != e], b == 0, fs):
                    z = z3.RealVal(0) if z3.is_real(a) else z3.IntVal(0)
                    for t in x[:6]:
                        out.append(t == z3.If(z3.And(e >= t.arg(0), e < t.arg(1)), A.at(e, pa), z))
                    break
        for x, y in itertools.combinations(list(reps.values())[:6], 2):
            a, b = x[0], y[0]
            if a.sort() != b.sort() or not a.arg(0).eq(b.arg(0)):
                continue
            A, B = self.ex.sums[a.decl().name()], self.ex.sums[b.decl().name()]
            pa, pb = a.children()[2:], b.children()[2:]
            ba, bb = A.at(k, pa), B.at(k, pb)
            cand = []
            for e in eq_terms(ba, k) + eq_terms(bb, k):
                if not any(e.eq(c) for c in cand):
                    cand.append(e)
            for e in cand[:3]:
                if self.sub(hyps + [k >= a.arg(0), k != e], ba == bb, fs):
                    his = []
                    for t in x + y:
                        if not any(t.arg(1).eq(h) for h in his):
                            his.append(t.arg(1))
                    z = z3.RealVal(0) if z3.is_real(a) else z3.IntVal(0)
                    for h in his[:6]:
                        sa, sb = a.decl()(a.arg(0), h, *pa), b.decl()(b.arg(0), h, *pb)
                        out.append(sa == sb + z3.If(z3.And(e >= a.arg(0), e < h), A.at(e, pa) - B.at(e, pb), z))
                    break
        return out

    def congruences(self, hyps, base, terms, sa, fs):
        """equalities between summaries whose ranges and bodies provably agree; linearity of sums"""
        ex = self.ex
        out = []
        sums, lasts = [], []
        t2 = uf_terms(base)
        for nm, ts in t2.items():
            if nm in ex.sums:
                for t in ts:
                    (sums if ex.sums[nm].kind == "sum" else lasts).append(t)
        # linear decomposition
        lin = []
        for t in list(sums):
            d = self.decompose(t)
            if d is not None:
                out.append(t == d)
                lin += [x for n, ts in uf_terms([d]).items() if n in ex.sums for x in ts]
        for x in lin:
            if not any(x.eq(y) for y in sums):
                sums.append(x)
        sums = sums[:24]
        if len(sums) <= 8:
            for t in list(sums):
                x = t.decl()(simp_z(t.arg(0) + 1), t.arg(1), *t.children()[2:])
                if not any(x.eq(y) for y in sums):
                    sums.append(x)
        for a, b in itertools.combinations(sums, 2):
            if a.sort() != b.sort() or a.eq(b):
                continue
            A, B = ex.sums[a.decl().name()], ex.sums[b.decl().name()]
            la, ha, pa = a.arg(0), a.arg(1), a.children()[2:]
            lb, hb, pb = b.arg(0), b.arg(1), b.children()[2:]
            sh = z3.simplify(lb - la)
            k = z3.Int("k!cong")
            rng = z3.And(k >= la, k < ha)
            ba, bb = A.at(k, pa), B.at(simp_z(k + sh), pb)
            if not self.sub(hyps, z3.Or(ha - la == hb - lb, z3.And(ha <= la, hb <= lb)), fs):
                continue
            if self.sub(hyps + [rng], ba == bb, fs, deep=True):
                out.append(a == b)
            else:
                # reversed order
                bb2 = B.at(simp_z(lb + ha - 1 - k), pb)
                if self.sub(hyps + [rng], ba == bb2, fs, deep=True):
                    out.append(a == b)
        for a in sums[:12]:
            A = ex.sums[a.decl().name()]
            la, ha, pa = a.arg(0), a.arg(1), a.children()[2:]
            k = z3.Int("k!cong")
            rng = z3.And(k >= la, k < ha)
            if self.sub(hyps + [rng], A.at(k, pa) == 0, fs):
                out.append(a == 0)
            elif self.sub(hyps + [rng], A.at(k, pa) >= 0, fs):
                out.append(a >= 0)
            # a sum with a single non-zero term (Kronecker)
            kp = self.kron(A, pa)
            if kp is not None:
                j, val = kp
                out.append(a == z3.If(z3.And(j >= la, j < ha), val, z3.RealVal(0) if z3.is_real(a) else z3.IntVal(0)))
        for a, b in itertools.combinations(lasts[:16], 2):
            A, B = ex.sums[a.decl().name()], ex.sums[b.decl().name()]
            if A.kind != B.kind:
                continue
            if A.kind == "last":
                ia, ib = a.children()[1:1 + len(A.idx)], b.children()[1:1 + len(B.idx)]
                k = z3.Int("k!cong")
                if self.sub(hyps, a.arg(0) == b.arg(0), fs) and \
                        self.sub(hyps + [k >= 0, k < a.arg(0)], A.at(k, a.children()[1 + len(A.idx):], ia) ==
                                 B.at(k, b.children()[1 + len(B.idx):], ib), fs, deep=True):
                    out.append(a == b)
        return out

    def kron(self, A, ps):
        """body = If(k == e, v, 0) (or nested product with such a factor)"""
        b = z3.substitute(A.body, *list(zip(A.params, ps))) if ps else A.body
        b = z3.simplify(b)
        if z3.is_app_of(b, z3.Z3_OP_ITE):
            z = _const(b.arg(2))
            from .loops import lincoef
            if is_num(z) and z == 0 and z3.is_eq(b.arg(0)) and z3.is_int(b.arg(0).arg(0)):
                d = b.arg(0).arg(0) - b.arg(0).arg(1)
                c = lincoef(d, A.k)
                if c in (1, -1):
                    d0 = z3.substitute(d, (A.k, z3.IntVal(0)))
                    j = z3.simplify(-d0 if c == 1 else d0)
                    return j, z3.substitute(b.arg(1), (A.k, j))
        return None

    def decompose(self, t):
        """sum of a polynomial body -> combination of sums of its k-dependent monomials"""
        ex = self.ex
        from .loops import SUM
        A = ex.sums[t.decl().name()]
        lo, hi, ps = t.arg(0), t.arg(1), t.children()[2:]
        k = z3.Int("k$dec")
        body = A.at(k, ps)
        try:
            nm = Norm()
            n, d = nm.go(body)
        except (NotPoly, RecursionError):
            return None
        if d != ONE and (len(d) != 1 or () not in d):
            return None
        if () in d and d[()] != 1:
            n = {m: c / d[()] for m, c in n.items()}
        if len(n) > 12:
            return None
        res = None
        trivial = len(n) == 1
        for m, c in n.items():
            inn, outt = [], []
            for v, e in m:
                a = nm.atoms[v]
                a = zx(toreal(a)) if z3.is_real(t) else a
                for _ in range(e):
                    (inn if mentions(a, {"k$dec"}) else outt).append(a)
            if not outt and trivial and c == 1:
                return None
            b = z3.RealVal(1) if z3.is_real(t) else z3.IntVal(1)
            for a in inn:
                b = a if (is_num(_const(b)) and _const(b) == 1) else b * a
            s = SUM(ex, lo, hi, k, b) if inn else zx(mul(zx(toreal(ite(ge(hi, lo), sub(hi, lo), 0))) if z3.is_real(t) else zx(ite(ge(hi, lo), sub(hi, lo), 0)), 1))
            term = mul(c if z3.is_real(t) else int(c), s) if c != 1 else s
            for a in outt:
                term = mul(term, a)
            res = term if res is None else add(res, term)
        if res is None:
            return None
        return zx(toreal(res)) if z3.is_real(t) else zx(res)

    def sub(self, hyps, goal, fs, deep=False):
        key = (tuple(h.get_id() for h in hyps), goal.get_id())
        if key in self.cong_cache:
            return self.cong_cache[key][0]
        r = self.sub_(hyps, goal, fs, deep)
        self.cong_cache[key] = (r, hyps, goal)
        return r

    def sub_(self, hyps, goal, fs, deep):
        g = z3.simplify(goal)
        if z3.is_true(g):
            return True
        if z3.is_false(g):
            return False
        if z3.is_eq(goal) and (z3.is_real(goal.arg(0)) or z3.is_int(goal.arg(0))):
            if poly_equal(goal.arg(0), goal.arg(1)) and not has_div(goal):
                return True
        base = list(hyps) + [z3.Not(goal)] + list(fs)
        ax = math_axioms(uf_terms(base))
        r, _ = self.z3(base + ax, 1500)
        if r == "unsat":
            return True
        rec = {n: t for n, t in uf_terms([goal]).items() if n in self.ex.sums and self.ex.sums[n].kind == "rec"}
        if rec:
            ra = summary_axioms(self.ex, rec)
            ax = ax + ra
            r, _ = self.z3(base + ax, 2000)
            if r == "unsat":
                return True
        if deep and getattr(self, "_deep", 0) < 2:
            t = uf_terms(hyps + [goal])
            if any(n in self.ex.sums for n in t):
                self._deep = getattr(self, "_deep", 0) + 1
                try:
                    cg = self.congruences(hyps, hyps + [goal], t, [], fs)
                finally:
                    self._deep -= 1
                if cg:
                    r, _ = self.z3(base + cg + ax, 2000)
                    return r == "unsat"
        return False


def leaf_range(e):
    """least and greatest value of a tree of conditionals over integer constants, or None"""
    if z3.is_int_value(e):
        return e.as_long(), e.as_long()
    if z3.is_app_of(e, z3.Z3_OP_ITE):
        a, b = leaf_range(e.arg(1)), leaf_range(e.arg(2))
        if a and b:
            return min(a[0], b[0]), max(a[1], b[1])
    return None


def eq_terms(e, k):
    """terms the variable k is compared with"""
    out, seen, todo = [], set(), [e]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_eq(x):
            for i in (0, 1):
                if x.arg(i).eq(k) and not contains(x.arg(1 - i), k):
                    out.append(x.arg(1 - i))
        todo.extend(x.children())
    return out


def contains(e, x):
    seen, todo = set(), [e]
    while todo:
        y = todo.pop()
        if y.get_id() in seen:
            continue
        seen.add(y.get_id())
        if y.eq(x):
            return True
        todo.extend(y.children())
    return False


def uf_names(es):
    out, seen, todo = set(), set(), list(es)
    while todo:
        x = todo.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            todo.append(x.body())
            continue
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name())
            todo.extend(x.children())
    return out


def nonlinear(es):
    seen, todo = set(), list(es)
    while todo:
        x = todo.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            todo.append(x.body())
            continue
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_MUL and sum(1 for c in x.children() if not is_num(_const(c))) > 1:
                return True
            if x.decl().kind() in (z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and not is_num(_const(x.arg(1))):
                return True
            if z3.is_string(x) and x.num_args() > 0:
                return True
            todo.extend(x.children())
    return False
