from vcgen.spec import *
from vcgen.lib_std import file_syms

ID = "C31"
DRIVER = dict(src="c31.cpp", repo=["src/debug/contiifstream.cpp", "src/debug/debug.cpp"], scan=["include/sot/core/contiifstream.hh"])
ASSUMPTIONS = ["a text file is its newline-terminated lines followed by an unterminated rest; std::fstream positions, getline, eof and "
               "tellg follow the standard on it; a file only grows (the offset of a complete line does not change)"]


def cases(S):
    tu = S.tu("src/debug/contiifstream.cpp")
    F = "Contiifstream"

    def mk(rest, opened, first):
        nm = "reading (%s, %s, %s)" % ("first" if first else "later", "with a partial line" if rest else "whole lines only",
                                       "readable" if opened else "unreadable")

        @S.case(nm, tu)
        def _(c):
            c.ex.file_rest, c.ex.file_opened = rest, opened
            o = c.obj(F, "f")
            if first is not None:
                c.set(o, "first", first)
            pre = c.snapshot()
            name, cur = c.get(o, "filename"), c.get(o, "cursor")
            K, line, off = file_syms(c.ex, name)
            j = c.nat("j")
            c.assume(and_(ge(K, j), eq(cur, off(j)), eq(off(0), 0), eq(c.ex.uf("file.lineof", (zx(name), zx(cur)), "int"), j)))
            old = c.get(o, "reader")
            c.given(ge(old.n, 0))
            r = c.call("Contiifstream::loop", o)
            c.no_throw("never throws", pre)
            new = c.get(o, "reader")
            if not opened:
                K = j
            c.ensure("tells whether a line was consumed", eq(zx(r), zx(gt(K, j))))
            c.ensure("resumes after the last complete line", eq(c.get(o, "cursor"), off(K)))
            i = c.int("i")
            if first:
                c.equal("lines complete at the first reading are skipped", new, old)
            else:
                c.ensure("one queue entry per complete line", eq(new.n, add(old.n, sub(K, j))))
                c.ensure("older entries kept", implies(and_(ge(i, 0), lt(i, old.n)), eq(new.at(i), old.at(i))))
                c.ensure("new lines whole and in order", implies(and_(ge(i, 0), lt(i, sub(K, j))), eq(new.at(add(old.n, i)), line(add(j, i)))))
            c.ensure("not first any more", not_(c.get(o, "first")))
            c.frame("nothing else changes", o, pre, ("cursor", "reader", "first", "buffer"))
    for rest in (False, True):
        for first in (False, True):
            mk(rest, True, first)
    mk(False, False, False)
    mk(False, False, True)

    @S.case("next", tu)
    def _(c):
        o = c.obj(F, "f")
        pre = c.snapshot()
        old = c.get(o, "reader")
        c.assume(ge(old.n, 1))
        r = c.call("Contiifstream::next", o)
        c.no_throw("never throws", pre)
        new = c.get(o, "reader")
        i = c.int("i")
        c.ensure("the oldest line", eq(r, old.at(0)))
        c.ensure("removed", and_(eq(new.n, sub(old.n, 1)), implies(and_(ge(i, 0), lt(i, new.n)), eq(new.at(i), old.at(add(i, 1))))))
        c.frame("nothing else changes", o, pre, ("reader",))

    @S.case("ready", tu)
    def _(c):
        o = c.obj(F, "f")
        pre = c.snapshot()
        old = c.get(o, "reader")
        c.given(ge(old.n, 0))
        r = c.call("Contiifstream::ready", o)
        c.ensure("whether a line is queued", eq(zx(r), zx(gt(old.n, 0))))
        c.frame("pure", o, pre)

    @S.case("open", tu)
    def _(c):
        o = c.obj(F, "f")
        n = z3.String("newname")
        pre = c.snapshot()
        c.call("Contiifstream::open", o, c.put(n))
        c.ensure("from the beginning of that file", and_(eq(c.get(o, "filename"), n), eq(c.get(o, "cursor"), 0)))
        c.frame("nothing else changes", o, pre, ("filename", "cursor"))

    @S.case("constructor", tu)
    def _(c):
        n = z3.String("newname")
        o = c.construct(F, c.put(n), n=1)
        c.ensure("at the beginning of that file", and_(eq(c.get(o, "filename"), n), eq(c.get(o, "cursor"), 0), zx(c.get(o, "first")),
                                                       eq(c.get(o, "reader").n, 0)))
