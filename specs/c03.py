from vcgen.spec import *

ID = "C03"
CLASSES = {"Task": 200, "Feature": 300, "Dynamic": 500, "Factory": 400, "Signal": 100, "Tools": 700}
SRC = ["src/exception/exception-%s.cpp" % n.lower() for n in CLASSES] + ["src/exception/exception-abstract.cpp"]
DRIVER = dict(src="c03.cpp", repo=SRC + ["src/debug/debug.cpp"], scan=["include/sot/core/exception-abstract.hh"])
# every documented code of every family, in /repo's enumerations
CODES = {
    "Task": "GENERIC EMPTY_LIST NON_ADEQUATE_FEATURES MATRIX_SIZE BOUND_TYPE PARSER_MULTI_BOUND",
    "Feature": "GENERIC BAD_INIT UNCOMPATIBLE_SIZE",
    "Dynamic": "GENERIC CANT_DESTROY_SIGNAL JOINT_RANK DYNAMIC_JRL JOINT_SIZE INTEGRATION",
    "Factory": "GENERIC UNREFERED_OBJECT UNREFERED_SIGNAL UNREFERED_FUNCTION DYNAMIC_LOADING SIGNAL_CONFLICT FUNCTION_CONFLICT "
               "OBJECT_CONFLICT SYNTAX_ERROR READ_FILE",
    "Signal": "GENERIC READWRITE_LOCK COPY_NOT_INITIALIZED NOT_INITIALIZED PLUG_IMPOSSIBLE SET_IMPOSSIBLE BAD_CAST",
    "Tools": "GENERIC CORBA KALMAN_SIZE PARAMETER_SERVER",
}
ASSUMPTIONS = ["vsnprintf(buf, n, fmt, args) writes the formatted text cut to n-1 characters; the messages checked are those whose "
               "formatted part fits the 256 byte buffer of the constructors",
               "the families' enumerators checked are those listed in specs/c03.py"]
# enumeration constants are read through real code generated from the headers
ENUMS = "".join("#include <sot/core/exception-%s.hh>\n" % n.lower() for n in ["Abstract"] + list(CLASSES)) + \
    "namespace verif {\n" + "".join(
        "int code_%s_%s() { return dynamicgraph::sot::Exception%s::%s; }\n" % (c, e, c, e) for c in CODES for e in CODES[c].split()) + "}\n"


def cases(S):
    tus = {n: S.tu("src/exception/exception-%s.cpp" % n.lower(), "src/exception/exception-abstract.cpp") for n in CLASSES}
    tua = S.tu("src/exception/exception-abstract.cpp")
    en = S.tu(text=ENUMS)

    def observers(c, tu, o, code, msg):
        base = "ExceptionAbstract::"
        pre = c.snapshot()
        c.equal("getCode", c.call(base + "getCode", o), code)
        c.equal("getMessage", c.call(base + "getMessage", o), msg)
        c.equal("getStringMessage", c.call(base + "getStringMessage", o), msg)
        c.equal("what", c.call(base + "what", o), msg)
        c.frame("observers are pure", o, pre)

    def streamed(c, tu, o, code, msg, name):
        s = c.put(Stream(z3.String("before")))
        c.call("operator<<", None, s, o, pred=lambda f: "ExceptionAbstract" in f["params"][1]["t"])
        t = zx(c.get(s).text)
        c.ensure("streamed text keeps what was there", z3.PrefixOf(z3.String("before"), t))
        new = z3.SubString(t, z3.Length(z3.String("before")), z3.Length(t))
        c.ensure("streamed text contains the class name", z3.Contains(new, z3.StringVal(name)))
        c.ensure("streamed text contains the code", z3.Contains(new, zx(c.ex.uf("int2str", (code,), "str"))))
        c.ensure("streamed text contains the message", z3.Contains(new, zx(msg)))

    def mk(n, base):
        tu = tus[n]
        cls = "Exception" + n

        @S.case(cls + ": code and message", tu)
        def _(c):
            code, msg = c.int("code"), z3.String("msg")
            o = c.construct(cls, c.put(code), c.put(msg), n=2)
            observers(c, tu, o, code, msg)
            streamed(c, tu, o, code, msg, n)

        @S.case(cls + ": formatted message", tu)
        def _(c):
            code, msg, fmt = c.int("code"), z3.String("msg"), z3.String("fmt")
            a1, a2 = c.int("a1"), z3.String("a2")
            txt = c.ex.uf("format2", (fmt, a1, a2), "str")
            c.assume(z3.Length(txt) < 256)
            f = [f for f in tu.by_qn["dynamicgraph::sot::%s::ctor" % cls] if f.get("variadic")][0]
            o = c.put(Struct(c.cls(cls), {}, c.ex.symrec(c.cls(cls), "uninit").mk))
            c.construct_with(f, o, c.put(code), c.put(msg), fmt, a1, a2)
            observers(c, tu, o, code, z3.Concat(msg, txt))
            streamed(c, tu, o, code, z3.Concat(msg, txt), n)

        @S.case(cls + ": codes of the family", en)
        def _(c):
            vals = []
            for e in CODES[n].split():
                v = c.call("verif::code_%s_%s" % (n, e))
                c.ensure("%s within the family's range" % e, and_(ge(v, base), lt(v, base + 100)))
                vals.append(v)
            c.ensure("distinct codes", and_(*[ne(a, b) for i, a in enumerate(vals) for b in vals[:i]]))
    for n, b in CLASSES.items():
        mk(n, b)

    @S.case("ExceptionAbstract: code and message", tua)
    def _(c):
        code, msg = c.int("code"), z3.String("msg")
        o = c.construct("ExceptionAbstract", c.put(code), c.put(msg), n=2)
        observers(c, tua, o, code, msg)
        streamed(c, tua, o, code, msg, "Abstract")
