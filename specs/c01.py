from vcgen.spec import *

ID = "C01"
DRIVER = dict(src="c01.cpp", repo=["src/filters/causal-filter.cpp"], scan=["include/sot/core/causal-filter.hh"])
ASSUMPTIONS = ["re-indexing a finite sum by the involution c = (p - i) mod m (the sum over ages i of the statement is the sum over buffer "
               "columns c of the contracts)",
               "numerators and denominators have at least one coefficient; a denominator's leading coefficient is not 0"]


def cases(S):
    tu = S.tu("src/filters/causal-filter.cpp")
    F = "CausalFilter"

    def mod(p, i, m):
        """(p - i) mod m for 0 <= p, i < m"""
        return ite(ge(sub(p, i), 0), sub(p, i), add(sub(p, i), m))

    def setup(c, first=None):
        n, M, N = c.nat("xsize"), c.nat("M"), c.nat("N")
        c.assume(and_(ge(M, 1), ge(N, 3)))
        f = c.obj(F, "f", m_x_size=n, m_filter_order_m=M, m_filter_order_n=N, m_filter_numerator=c.vec("num", M),
                  m_filter_denominator=c.vec("den", N), m_input_buffer=c.matrix("in", n, M), m_output_buffer=c.matrix("out", n, sub(N, 1)),
                  m_dt=c.real("dt"))
        if first is not None:
            c.set(f, "m_first_sample", first)
        p, q = c.get(f, "m_pt_numerator"), c.get(f, "m_pt_denominator")
        c.given(and_(ge(p, 0), lt(p, M)))
        c.given(and_(ge(q, 0), lt(q, sub(N, 1))))
        c.assume(ne(c.ex.uf("den", (z3.IntVal(0),), "real"), 0))
        c.assume(ne(c.real("dt"), 0))
        return f, n, M, N, p, q

    def wf(c, f):
        """representation invariant"""
        v = c.get(f)
        M, N = v.get("m_filter_order_m"), v.get("m_filter_order_n")
        i, o, nu, de = (v.get(x) for x in ("m_input_buffer", "m_output_buffer", "m_filter_numerator", "m_filter_denominator"))
        p, q = v.get("m_pt_numerator"), v.get("m_pt_denominator")
        return and_(ge(M, 1), ge(N, 3), eq(nu.r, M), eq(de.r, N), eq(i.r, v.get("m_x_size")), eq(i.c, M), eq(o.r, v.get("m_x_size")),
                    eq(o.c, sub(N, 1)), ge(p, 0), lt(p, M), ge(q, 0), lt(q, sub(N, 1)))

    def past_in(c, f, r, i):
        """input i samples before the next one (i >= 1)"""
        v = c.get(f)
        return v.get("m_input_buffer").at(r, mod(v.get("m_pt_numerator"), i, v.get("m_filter_order_m")))

    def past_out(c, f, r, j):
        """output j samples before the next one (j >= 1)"""
        v = c.get(f)
        return v.get("m_output_buffer").at(r, mod(v.get("m_pt_denominator"), sub(j, 1), sub(v.get("m_filter_order_n"), 1)))

    def sums(c, M, N):
        k = z3.Int("k$q")
        sb = SUM(c.ex, 0, M, k, c.ex.uf("num", (k,), "real"))
        sa = SUM(c.ex, 0, N, k, c.ex.uf("den", (k,), "real"))
        return sb, sa

    for first in (False, True):
        def mk(first):
            @S.case("update, first sample" if first else "update", tu)
            def _(c):
                f, n, M, N, p, q = setup(c, first)
                x = c.put(c.vec("x", n))
                y = c.put(c.vec("y0", mul(3, n)))
                if first:
                    sb, sa = sums(c, M, N)
                    c.assume(ne(sa, 0))
                pre = c.snapshot()
                c.call("CausalFilter::get_x_dx_ddx", f, x, y)
                c.no_throw("never throws", pre)
                r = c.int("r")
                c.assume(and_(ge(r, 0), lt(r, n)))
                Y = c.get(y)
                c.ensure("size of the result", and_(eq(Y.r, mul(3, n)), eq(Y.c, 1)))
                k = z3.Int("k$spec")
                num = lambda i: c.ex.uf("num", (zx(i),), "real")
                den = lambda i: c.ex.uf("den", (zx(i),), "real")
                xr = c.ex.uf("x", (r,), "real")
                if first:
                    steady = div(mul(xr, sb), sa)
                    inp = lambda col: xr
                    out = lambda col: steady
                else:
                    inp = lambda col: ite(eq(col, p), xr, c.ex.uf("in", (r, zx(col)), "real"))
                    out = lambda col: c.ex.uf("out", (r, zx(col)), "real")
                su = SUM(c.ex, 0, M, k, mul(inp(k), num(mod(p, k, M))))
                sy = SUM(c.ex, 0, sub(N, 1), k, mul(out(k), den(add(mod(q, k, sub(N, 1)), 1))))
                c.ensure("difference equation", eq(mul(den(0), Y.at(r, 0)), sub(su, sy)))
                y1, y2 = out(q), out(mod(q, 1, sub(N, 1)))
                dt = c.real("dt")
                c.ensure("first derivative", eq(Y.at(add(r, n), 0), div(sub(Y.at(r, 0), y1), dt)))
                c.ensure("second derivative", eq(Y.at(add(r, mul(2, n)), 0), div(div(add(sub(Y.at(r, 0), mul(2, y1)), y2), dt), dt)))
                # the state after: histories shifted by one
                i, j = c.int("i"), c.int("j")
                c.assume(and_(ge(i, 1), lt(i, M), ge(j, 1), lt(j, N)))
                c.ensure("representation invariant", wf(c, f))
                c.ensure("input history shifted", eq(past_in(c, f, r, i), ite(eq(i, 1), xr, inp(mod(p, sub(i, 1), M)))))
                c.ensure("output history shifted", eq(past_out(c, f, r, j), ite(eq(j, 1), Y.at(r, 0), out(mod(q, sub(j, 2), sub(N, 1))))))
                c.ensure("not the first sample any more", not_(c.get(f, "m_first_sample")))
                c.frame("coefficients, step and sizes unchanged", f, pre,
                        ("m_input_buffer", "m_output_buffer", "m_pt_numerator", "m_pt_denominator", "m_first_sample"))
                c.equal("input unchanged", c.get(x), c.at(pre, x))
        mk(first)

    def coeffs(c, M2, N2):
        nu, de = c.put(c.vec("num2", M2)), c.put(c.vec("den2", N2))
        c.assume(and_(ge(M2, 1), ge(N2, 1)))
        return nu, de

    def stored(c, f, M2, N2):
        v = c.get(f)
        i = c.int("i")
        c.assume(ge(i, 0))
        n2, d2 = v.get("m_filter_numerator"), v.get("m_filter_denominator")
        c.ensure("numerator stored", and_(eq(n2.r, M2), eq(v.get("m_filter_order_m"), M2),
                                          implies(lt(i, M2), eq(n2.at(i, 0), c.ex.uf("num2", (i,), "real")))))
        c.ensure("denominator stored (completed with zeros)", and_(eq(d2.r, v.get("m_filter_order_n")), ge(d2.r, N2), implies(
            lt(i, d2.r), eq(d2.at(i, 0), ite(lt(i, N2), c.ex.uf("den2", (i,), "real"), 0)))))
        c.ensure("representation invariant", wf(c, f))

    @S.case("constructor", tu)
    def _(c):
        n, M2, N2 = c.nat("xsize"), c.nat("M2"), c.nat("N2")
        nu, de = coeffs(c, M2, N2)
        dt = c.real("dt")
        c.assume(gt(dt, 0))
        f = c.construct(F, c.put(dt), c.put(n), nu, de, n=4)
        stored(c, f, M2, N2)
        v = c.get(f)
        c.ensure("step and size", and_(eq(v.get("m_dt"), dt), eq(v.get("m_x_size"), n)))
        c.ensure("waits for the first sample", v.get("m_first_sample"))

    @S.case("switch to other coefficients", tu)
    def _(c):
        f, n, M, N, p, q = setup(c, False)
        M2, N2 = c.nat("M2"), c.nat("N2")
        nu, de = coeffs(c, M2, N2)
        k = z3.Int("k$q")
        pre = c.snapshot()
        r = c.int("r")
        c.assume(and_(ge(r, 0), lt(r, n)))
        last = past_in(c, f, r, ite(eq(M, 1), 0, 1))
        c.call("CausalFilter::switch_filter", f, nu, de)
        c.no_throw("never throws", pre)
        stored(c, f, M2, N2)
        v = c.get(f)
        N3 = v.get("m_filter_order_n")
        sb = SUM(c.ex, 0, M2, k, c.ex.uf("num2", (k,), "real"))
        sa = SUM(c.ex, 0, N3, k, ite(lt(k, N2), c.ex.uf("den2", (k,), "real"), 0))
        c.assume(ne(sa, 0))
        j = c.int("j")
        c.ensure("inputs: the most recent one everywhere", implies(and_(ge(j, 0), lt(j, M2)), eq(v.get("m_input_buffer").at(r, j), last)))
        c.ensure("outputs: its steady-state image everywhere", implies(and_(ge(j, 0), lt(j, sub(N3, 1))),
                                                                       eq(mul(v.get("m_output_buffer").at(r, j), sa), mul(last, sb))))
        c.frame("step and size unchanged", f, pre, ("m_input_buffer", "m_output_buffer", "m_pt_numerator", "m_pt_denominator",
                "m_filter_numerator", "m_filter_denominator", "m_filter_order_n", "m_filter_order_m"))
        c.equal("given coefficients unchanged", c.get(nu), c.at(pre, nu))
        c.equal("given coefficients unchanged (denominator)", c.get(de), c.at(pre, de))
