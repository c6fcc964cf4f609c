"""Contracts of the dynamic-graph interface (not part of this repository, not installed here): a signal evaluated at a time
returns one value for that time; a plugged pointer returns the value of the signal it is plugged to; a constant signal
returns its constant.  Registration, documentation, logging and command plumbing have no effect on values."""
import re
from fractions import Fraction
import z3
from .values import *
from .ctypes_ import ptype, T, strip_cv
from .interp import lib, LIB, LIBPAT, PathEnd, LV
from .lib_std import pat, cstr, fmt_text

SIG = r"^dynamicgraph::(Signal|SignalPtr|SignalTimeDependent|SignalBase|SignalCaster|TimeDependency)::"


def sigv(ex, o):
    v = ex.rd(o)
    if isinstance(v, Ptr):
        v = ex.rd(ex.deref(v))
    return v


@pat(SIG + r"ctor$")
def _sctor(ex, e, o, a):
    t = ptype(e["t"])
    s = SigV(t, ex.new("sig"))
    s.plugged = False
    for x in a:
        v = ex.rd(x)
        if isinstance(v, Fun):
            s.deps = v
    return s


@pat(SIG + r"(access|accessCopy|operator\(\))$")
def _acc(ex, e, o, a):
    c, rest = (a[0], a[1:]) if o is None else (o, a)
    s = ex.rd(c)
    if isinstance(s, Opaque):
        return s
    if not isinstance(s, SigV):
        raise Unsupported("signal access on %r" % (s,))
    t = ex.rd(rest[0]) if rest else None
    if t is not None and s.over is None and ex.sig_values.get(s.sid) is None:
        return sig_loc(ex, s, t)
    return sig_value(ex, s, t, c)


def sig_loc(ex, s, t):
    """where the value of the signal at time t lives (access returns a reference)"""
    from .interp import _TK, _ID
    return LV(("obj", _TK(s.ty.a[0]), _ID(ex.uf(s.sid + "@", tuple(s.args) + (t,), "int"))))


def sig_value(ex, s, t=None, lv=None):
    if s.over is not None:
        return s.over
    h = ex.sig_values.get(s.sid)
    if h is not None:
        return h(ex, s, t, lv)
    if t is None:
        return ex.sym(s.ty.a[0], s.sid + "@copy", s.args)
    return ex.rd(sig_loc(ex, s, t))


@pat(SIG + r"(setConstant|operator=|setReference|setReferenceNonConstant|setFunction|plug|unplug)$")
def _set(ex, e, o, a):
    nm = e["fn"].split("::")[-1]
    c, rest = (a[0], a[1:]) if o is None else (o, a)
    s = ex.rd(c)
    if not isinstance(s, SigV):
        return c
    n = SigV(s.ty, s.sid, s.args, s.over, s.plugged)
    n.deps = getattr(s, "deps", None)
    v = ex.rd(rest[0]) if rest else None
    if nm == "plug":
        if isinstance(v, Ptr):
            n.plugged = not_(ptr_eq(v, NULL))
            if v.kind == "loc":
                n.deps = v
        else:
            n.plugged = True
        n.over = None
    elif nm == "unplug":
        n.plugged = False
    elif nm == "setFunction":
        n.deps = v
        n.over = None
    elif nm in ("setReference", "setReferenceNonConstant"):
        n.over = ex.rd(ex.deref(v))
    elif isinstance(v, Ptr) and s.ty.a[0].k != "ptr":
        n.plugged = not_(ptr_eq(v, NULL))
        n.over = None
    else:
        if isinstance(v, SigV):
            return c
        n.over = ex.coerce(v, s.ty.a[0])
        n.plugged = True
    ex.write(c, n)
    return c


@pat(SIG + r"(isPlugged|operator_conv|operator bool)$")
def _plugged(ex, e, o, a):
    s = ex.rd(o)
    if isinstance(s, Opaque):
        return ex.fresh("bool", "plugged")
    return plugged(ex, s)


def plugged(ex, s):
    if s.plugged is not None:
        return s.plugged
    if s.over is not None:
        return True
    return ex.uf(s.sid + ".plugged", s.args, "bool")


@pat(SIG + r"getPtr$")
def _getptr(ex, e, o, a):
    s = ex.rd(o)
    return Ptr("opq", ident=ex.uf(s.sid + ".ptr", s.args, "int"), cls=T("sig", s.ty.a[0], s="sigptr"))


@pat(SIG + r"(recompute)$")
def _recompute(ex, e, o, a):
    h = ex.sig_values.get("recompute")
    if h:
        return h(ex, o, ex.rd(a[0]))
    return None


@pat(SIG + r"(getTime)$")
def _gettime(ex, e, o, a):
    s = ex.rd(o)
    t = ex.st.store.get(("sigtime", s.sid))
    if t is not None:
        return t
    return ex.uf(s.sid + ".time", s.args, "int")


@pat(SIG + r"(setTime)$")
def _settime(ex, e, o, a):
    s = ex.rd(o)
    if isinstance(s, SigV):
        ex.st.store[("sigtime", s.sid)] = ex.rd(a[0])


@pat(SIG + r"(getReady|needUpdate)$")
def _ready(ex, e, o, a):
    return ex.fresh("bool", "ready")


@pat(SIG + r"(getName|shortName)$")
def _signame(ex, e, o, a):
    s = ex.rd(o)
    return ex.uf("signame:" + (s.sid if isinstance(s, SigV) else "?"), s.args if isinstance(s, SigV) else (), "str")


@pat(SIG + r"(addDependency|removeDependency|addDependencies|clearDependencies|setDependencyType|setKeepReference|setReady|setNeedUpdateFromAllChildren|setPeriodTime|getPeriodTime|display|get|trace|writeGraph|operator<<|setDependencies|dtor|checkCompatibility|set)$")
def _signop(ex, e, o, a):
    return o if o is not None else (a[0] if a else None)


@pat(r"^dynamicgraph::(SignalArray|SignalArray_const)::.*$")
def _sarr(ex, e, o, a):
    return Opaque("signal list")


@pat(r"^dynamicgraph::(sotNOSIGNAL|operator<<|operator_conv|toString)$")
def _sarr2(ex, e, o, a):
    if e["fn"].endswith("operator<<"):
        x = ex.rd(a[0])
        if isinstance(x, Stream):
            from .lib_std import stream_put
            return stream_put(ex, a[0], Opaque("v"))
    if e["fn"].endswith("toString"):
        from .lib_std import tostr
        return tostr(ex, ex.rd(a[0])) or ex.fresh("str", "toString")
    return Opaque("signal list")


@pat(r"^dynamicgraph::Entity::(getName)$")
def _ename(ex, e, o, a):
    v = ex.rd(o)
    if isinstance(v, Struct):
        if "name" in v.fields:
            return v.fields["name"]
        try:
            return v.get("name")
        except Unsupported:
            pass
    return ex.fresh("str", "entityname")


@pat(r"^dynamicgraph::Entity::(getClassName|getDocString|getCommandList)$")
def _ecls(ex, e, o, a):
    return ex.fresh("str", "clsname")


@pat(r"^dynamicgraph::Entity::(getSignal)$")
def _egetsig(ex, e, o, a):
    return LV(("obj", _sigT(), _mkid(ex, o, a)))


def _sigT():
    from .interp import _TK
    return _TK(T("sig", T("opaque", s="?"), s="dynamicgraph::SignalBase<int>"))


def _mkid(ex, o, a):
    from .interp import _ID
    return _ID(ex.uf("sigof", (zx(ex.rd(a[0])),), "int"))


@pat(r"^dynamicgraph::Entity::\w+$")
def _eany(ex, e, o, a):
    if e["fn"].endswith("::ctor"):
        return Opaque("entity")
    if e["fn"].endswith("logger"):
        return Opaque("logger")
    return None


@pat(r"^dynamicgraph::(command::|Logger|RealTimeLogger|RTLoggerStream|LoggerStream|EntityRegisterer|FactoryStorage|EitherType|DebugTrace).*$")
def _cmd(ex, e, o, a):
    return Opaque(e["fn"])


@pat(r"^dynamicgraph::PoolStorage::(\w+)$")
def _pool(ex, e, o, a):
    nm = e["fn"].split("::")[-1]
    if nm == "getInstance":
        return Ptr("loc", lv=LV(("dgpool",)))
    if nm == "getEntity":
        ex.st.store.setdefault(("dgpool",), Opaque("pool"))
        from .interp import _TK
        return LV(("obj", _TK(T("rec", "dynamicgraph::Entity", s="dynamicgraph::Entity")), _entid(ex, a)))
    if nm == "getSignal":
        x = ex.rd(a[0])
        from .interp import _ID
        return LV(("obj", _sigT(), _ID(ex.uf("poolsignal", (ex.fresh("int", "is"),), "int"))))
    return Opaque(e["fn"])


def _entid(ex, a):
    from .interp import _ID
    return _ID(ex.uf("entity", (zx(ex.rd(a[0])),), "int"))


@pat(r"^boost::assign(_detail)?::.*$")
def _assign(ex, e, o, a):
    return Opaque("boost::assign")


@pat(r"^dynamicgraph::Exception(\w+)::ctor$")
def _dgexc(ex, e, o, a):
    vals = [ex.rd(x) for x in a]
    return Struct(e["fn"][:-6], {"code": vals[0] if vals else 0, "message": vals[1] if len(vals) > 1 else ""})


@pat(r"^(boost::(unique_lock|detail::try_lock_wrapper|recursive_mutex|timed_mutex|mutex|condition_variable|this_thread|thread|lock_guard)|std::(mutex|lock_guard|unique_lock))::.*$")
def _mutex(ex, e, o, a):
    if e["fn"].endswith("owns_lock"):
        return ex.fresh("bool", "owns_lock")
    return Opaque("mutex")


@pat(r"^dynamicgraph::sot::Exception\w+::ctor$")
def _sotexc(ex, e, o, a):
    """the contract of property C03: the exception keeps the code and the message it was built with"""
    vals = [ex.rd(x) for x in a]
    from .lib_std import cstr
    msg = vals[1] if len(vals) > 1 else ""
    return Struct(e["fn"][:-6], {"code": vals[0] if vals else 0, "message": ex.fresh("str", "formatted message") if len(vals) > 2 else msg})


@pat(r"^dynamicgraph::sot::Exception\w+::(getCode|getMessage|getStringMessage|what)$")
def _sotexcget(ex, e, o, a):
    v = ex.rd(o)
    return v.get("code") if e["fn"].endswith("getCode") else v.get("message")
