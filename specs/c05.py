from vcgen.spec import *

ID = "C05"
CLS = "dynamicgraph::sot::Flags"
DRIVER = dict(src="c05.cpp", repo=["src/sot/flags.cpp"], scan=["include/sot/core/flags.hh"])


def val(f, i):
    """abstract value of a flag set: the function index -> bool on all non-negative indices"""
    v = f.get("flags")
    return ite(lt(i, v.n), v.at(i), f.get("outOfRangeFlag"))


def cases(S):
    tu = S.tu("src/sot/flags.cpp")

    def two(c):
        a, b = c.obj(CLS, "a"), c.obj(CLS, "b")
        return a, b

    @S.case("operator()(i) is the abstract value at i", tu)
    def _(c):
        f = c.obj(CLS, "f")
        i = c.int("i")
        c.assume(i >= 0)
        c.given(i < 2**31)
        c.given(zx(c.get(f, "flags").n) < 2**31)
        pre = c.snapshot()
        r = c.call("Flags::operator()", f, c.put(i))
        c.no_throw("never throws", pre)
        c.ensure("value", eq(r, val(c.at(pre, f), i)))
        c.frame("pure", f, pre)

    @S.case("operator bool: some index is set", tu)
    def _(c):
        f = c.obj(CLS, "f")
        pre = c.snapshot()
        r = c.call([x for x in tu.fns.values() if x["qn"].startswith(CLS + "::operator") and x["ret"] == "bool"
                    and not x["params"]][0], f)
        j = c.q()
        F = c.at(pre, f)
        # beyond the prefix every index has the sticky value, so quantifying up to the first index beyond is exhaustive
        c.ensure("exists", eq(zx(r), z3.Exists([j], zx(and_(ge(j, 0), val(F, j))))))
        c.no_throw("never throws", pre)

    for nm, op in (("Flags::operator&=", and_), ("Flags::operator|=", or_)):
        def mk(nm, op):
            @S.case(nm, tu)
            def _(c):
                a, b = two(c)
                pre = c.snapshot()
                A, B = c.get(a), c.get(b)
                c.call(nm, a, b)
                c.no_throw("never throws", pre)
                P = c.get(a)
                i = c.int("i")
                c.assume(i >= 0)
                c.ensure("value at every index", eq(zx(val(P, i)), zx(op(val(A, i), val(B, i)))))
                c.frame("argument unchanged", b, pre)
            @S.case(nm + " aliased", tu)
            def _(c):
                a = c.obj(CLS, "a")
                A = c.get(a)
                c.call(nm, a, a)
                i = c.int("i")
                c.assume(i >= 0)
                c.ensure("value at every index", eq(zx(val(c.get(a), i)), zx(val(A, i))))
        mk(nm, op)
    for nm, op in (("operator&", and_), ("operator|", or_)):
        def mk(nm, op):
            @S.case(nm, tu)
            def _(c):
                a, b = two(c)
                pre = c.snapshot()
                A, B = c.get(a), c.get(b)
                r = c.call(nm, None, a, b, pred=lambda f: "Flags" in f["ret"])
                i = c.int("i")
                c.assume(i >= 0)
                c.ensure("value at every index", eq(zx(val(r, i)), zx(op(val(A, i), val(B, i)))))
                c.frame("first operand unchanged", a, pre)
                c.frame("second operand unchanged", b, pre)
        mk(nm, op)

    @S.case("operator!", tu)
    def _(c):
        a = c.obj(CLS, "a")
        pre = c.snapshot()
        A = c.get(a)
        r = c.call("Flags::operator!", a)
        i = c.int("i")
        c.assume(i >= 0)
        c.ensure("value at every index", eq(zx(val(r, i)), zx(not_(val(A, i)))))
        c.frame("operand unchanged", a, pre)

    for nm, v in (("set", True), ("unset", False)):
        def mk(nm, v):
            @S.case(nm, tu)
            def _(c):
                a = c.obj(CLS, "a")
                pre = c.snapshot()
                A = c.get(a)
                n = A.get("flags").n
                k = c.int("k")
                c.assume(k >= 0)
                c.call("Flags::" + nm, a, c.put(k))
                c.no_throw("never throws", pre)
                P = c.get(a)
                i = c.int("i")
                c.assume(i >= 0)
                c.ensure("other indices unchanged", implies(ne(i, k), eq(zx(val(P, i)), zx(val(A, i)))))
                c.ensure("stored index takes the value", implies(lt(k, n), eq(zx(val(P, k)), v)))
                c.ensure("index beyond the prefix: no change", implies(ge(k, n), eq(zx(val(P, k)), zx(val(A, k)))))
        mk(nm, v)

    @S.case("add appends one flag", tu)
    def _(c):
        a = c.obj(CLS, "a")
        pre = c.snapshot()
        A = c.get(a)
        b = c.bool("b")
        c.call("Flags::add", a, c.put(b))
        P = c.get(a)
        i = c.int("i")
        n = A.get("flags").n
        c.assume(i >= 0)
        c.ensure("appended", eq(zx(val(P, i)), zx(ite(eq(i, n), b, val(A, i)))))
        c.frame("the rest unchanged", a, pre, ("flags",))

    @S.case("constructor from bool", tu)
    def _(c):
        b = c.bool("b")
        f = c.construct("Flags", c.put(b), pred=lambda f: "bool" in f["params"][0]["t"] and "vector" not in f["params"][0]["t"])
        i = c.int("i")
        c.assume(i >= 0)
        c.ensure("constant", eq(zx(val(c.get(f), i)), b))

    @S.case("constructor from vector", tu)
    def _(c):
        s = c.v("std::vector<bool>", "src")
        f = c.construct("Flags", c.put(s), pred=lambda f: "vector" in f["params"][0]["t"])
        i = c.int("i")
        c.assume(i >= 0)
        c.ensure("prefix then false", eq(zx(val(c.get(f), i)), zx(ite(lt(i, s.n), s.at(i), False))))

    @S.case("constructor from text", tu)
    def _(c):
        s = z3.String("s")
        pre = c.snapshot()
        f = c.construct("Flags", s, pred=lambda f: "char" in f["params"][0]["t"])
        i = c.int("i")
        c.assume(z3.And(i >= 0, i < z3.Length(s)))
        ch = z3.StrToCode(z3.SubString(s, i, 1))
        c.ensure("accepted characters", z3.Or(ch == 48, ch == 49, ch == 32))
        c.ensure("one flag per character", implies(ne(ch, 32), eq(zx(val(c.get(f), i)), ch == 49)))
