"""C++ type strings (as printed by clang, canonical) -> small descriptors."""
import functools
import re


class T:
    __slots__ = ("k", "a", "s")

    def __init__(self, k, *a, s=""):
        self.k, self.a, self.s = k, a, s

    def __repr__(self):
        return "T(%s %r)" % (self.k, self.a)


def split_args(s):
    out, d, cur = [], 0, ""
    for ch in s:
        if ch in "<([":
            d += 1
        elif ch in ">)]":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


INTS = {"int", "long", "short", "char", "signed char", "long long", "__int128"}
UINTS = {"unsigned int", "unsigned long", "unsigned short", "unsigned char", "unsigned long long"}


def strip_cv(s):
    s = s.strip()
    while True:
        if s.startswith("const "):
            s = s[6:].strip()
        elif s.startswith("volatile "):
            s = s[9:].strip()
        elif s.endswith(" const"):
            s = s[:-6].strip()
        elif s.endswith("*const"):
            s = s[:-5].strip()
        elif s.endswith("*__restrict"):
            s = s[:-10].strip()
        elif s.startswith("struct "):
            s = s[7:]
        elif s.startswith("class "):
            s = s[6:]
        else:
            return s


def is_ref(s):
    return s.strip().endswith("&")


def is_const_ref(s):
    s = s.strip()
    return s.endswith("&") and s.startswith("const ")


ALIAS = {"Eigen::VectorXd": "Eigen::Matrix<double, -1, 1>", "Eigen::MatrixXd": "Eigen::Matrix<double, -1, -1>",
         "Eigen::Vector3d": "Eigen::Matrix<double, 3, 1>", "Eigen::Matrix3d": "Eigen::Matrix<double, 3, 3>"}


@functools.lru_cache(maxsize=None)
def ptype(s):
    s0 = s
    s = strip_cv(s)
    while s.endswith("&"):
        s = strip_cv(s[:-1])
    if s in ALIAS:
        return ptype(ALIAS[s])
    if s.endswith("*"):
        if "(*" in s:
            return T("fun", s=s)
        inner = s[:-1].strip()
        if strip_cv(inner) == "char":
            return T("cstr", s=s)
        return T("ptr", ptype(inner), s=s)
    m = re.match(r"^(.*)\[(\d+)\]$", s)
    if m:
        # int[2][3] : outer dimension first
        m2 = re.match(r"^(.*?)\[(\d+)\]((?:\[\d+\])*)$", s)
        return T("arr", ptype(m2.group(1) + m2.group(3)), int(m2.group(2)), s=s)
    if s in ("double", "float", "long double"):
        return T("real", s=s)
    if s == "bool":
        return T("bool", s=s)
    if s in INTS:
        return T("int", s=s)
    if s in UINTS:
        return T("uint", s=s)
    if s == "void":
        return T("void", s=s)
    m = re.match(r"^([\w:]+)<(.*)>$", s)
    if m:
        n, args = m.group(1), split_args(m.group(2))
        if n in ("std::basic_string", "std::__cxx11::basic_string"):
            return T("str", s=s)
        if n in ("Eigen::Matrix", "Eigen::Array"):
            if args[0] in ("double", "float"):
                return T("mat", int(args[1]), int(args[2]), s=s)
            return T("mati", int(args[1]), int(args[2]), s=s)
        if n == "Eigen::Transform":
            return T("xform", s=s)
        if n == "Eigen::Quaternion":
            return T("quat", s=s)
        if n == "Eigen::AngleAxis":
            return T("aa", s=s)
        if n == "Eigen::Translation":
            return T("mat", 3, 1, s=s)
        if n in ("Eigen::Ref", "Eigen::Map", "Eigen::Block", "Eigen::VectorBlock", "Eigen::Transpose"):
            t = ptype(args[0])
            if n in ("Eigen::Ref", "Eigen::Map"):
                return T(t.k, *t.a, s=s)
            return T("eig", s=s)
        if n.startswith("Eigen::"):
            return T("eig", s=s)
        if n in ("std::vector", "std::list", "std::deque", "std::__cxx11::list"):
            return T("seq", ptype(args[0]), s=s)
        if n in ("boost::array", "std::array"):
            return T("arr", ptype(args[0]), int(args[1]), s=s)
        if n in ("boost::circular_buffer",):
            return T("cbuf", ptype(args[0]), s=s)
        if n in ("std::map", "std::unordered_map"):
            return T("map", ptype(args[0]), ptype(args[1]), s=s)
        if n == "std::set":
            return T("set", ptype(args[0]), s=s)
        if n == "std::pair":
            return T("pair", ptype(args[0]), ptype(args[1]), s=s)
        if n in ("std::shared_ptr", "boost::shared_ptr", "std::unique_ptr"):
            return T("ptr", ptype(args[0]), s=s)
        if n in ("dynamicgraph::Signal", "dynamicgraph::SignalTimeDependent", "dynamicgraph::SignalPtr"):
            return T("sig", ptype(args[0]), s=s)
        if n in ("boost::function", "std::function", "boost::function2", "boost::function0", "boost::function1",
                 "boost::_bi::bind_t"):
            return T("fun", s=s)
        if n.startswith("std::basic_") and "stream" in n:
            return T("stream", s=s)
        if n.startswith("std::") or n.startswith("boost::") or n.startswith("__gnu_cxx::"):
            return T("opaque", s=s)
        if s == "dynamicgraph::SignalBase<int>":
            return T("sig", T("opaque", s="?"), s=s)
        return T("rec", s, s=s)
    if s.startswith("std::basic_") and "stream" in s:
        return T("stream", s=s)
    if s.startswith("std::") or s.startswith("boost::") or s.startswith("__"):
        return T("opaque", s=s)
    if "(" in s:
        return T("fun", s=s)
    return T("rec", s, s=s)
