"""Runs the clang-based exporter on a translation unit of /repo (or an instantiation unit of /verif that only includes
/repo headers) and indexes the result.  Nothing is rewritten: the exported tree is what clang's semantic analysis made of
the current source text."""
import hashlib
import json
import os
import subprocess
import tempfile
from .ctypes_ import ptype, strip_cv

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SOTX = os.path.join(VERIF, "build", "sotx")


def flags():
    return ["-std=c++14", "-w", "-DNDEBUG", "-I" + os.path.join(VERIF, "stubs"), "-I" + os.path.join(REPO, "include"),
            "-I" + os.path.join(REPO, "src"), "-I/usr/include/eigen3"]


class AstError(Exception):
    pass


def ensure_sotx():
    if not os.path.exists(SOTX):
        subprocess.check_call(["bash", os.path.join(VERIF, "cxx", "build.sh")])


def export(path, text=None, extra=()):
    ensure_sotx()
    d = tempfile.mkdtemp(prefix="sotx")
    try:
        if text is not None:
            path = os.path.join(d, "unit.cpp")
            with open(path, "w") as f:
                f.write(text)
        out = os.path.join(d, "o.json")
        p = subprocess.run([SOTX, "-root=" + REPO + "/"] + (["-root=" + d + "/"] if text is not None else []) + ["-o", out, path, "--"] + flags() + list(extra),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
        if not os.path.exists(out):
            raise AstError("exporter failed on %s: %s" % (path, p.stdout[-2000:]))
        with open(out) as f:
            j = json.load(f)
        if j["errors"]:
            raise AstError("clang reports errors on %s: %s" % (path, p.stdout[-2000:]))
        return j
    finally:
        for n in os.listdir(d):
            os.unlink(os.path.join(d, n))
        os.rmdir(d)


class TU:
    """One or several exported units seen as one program (types are resolved to strings)."""

    def __init__(self):
        self.fns = {}
        self.by_qn = {}
        self.recs = {}
        self.globals = {}
        self.files = []
        self.loops = 0

    def load(self, path=None, text=None, name=None):
        j = export(path, text)
        self.add(j, path or name)
        return self

    def add(self, j, name):
        types = j["types"]
        uid = len(self.files)
        self.files.append(name)

        def fix(n):
            if isinstance(n, dict):
                for key in ("t", "cls", "owner", "nt", "ct", "ret"):
                    if key in n and isinstance(n[key], int) and not isinstance(n[key], bool):
                        n[key] = types[n[key]]
                if "pt" in n:
                    n["pt"] = [types[x] for x in n["pt"]]
                if "id" in n and isinstance(n["id"], int):
                    n["id"] = (uid, n["id"])
                if n.get("k") in ("For", "While", "Do", "RangeFor"):
                    n["loopid"] = self.loops
                    self.loops += 1
                for v in n.values():
                    if isinstance(v, (dict, list)):
                        fix(v)
            elif isinstance(n, list):
                for v in n:
                    if isinstance(v, (dict, list)):
                        fix(v)
        for f in j["functions"]:
            fix(f)
            if f["key"] in self.fns:
                continue
            self.fns[f["key"]] = f
            self.by_qn.setdefault(f["qn"], []).append(f)
        for r in j["records"]:
            r["t"] = types[r["t"]]
            r["bases"] = [types[b] for b in r["bases"]]
            fix(r["fields"])
            self.recs.setdefault(strip_cv(r["t"]), r)
        for g in j["globals"]:
            fix(g)
            self.globals[g["qn"]] = g

    def fn(self, qn, nparams=None, pred=None, cls=None):
        """The (unique) definition with this qualified name."""
        c = self.by_qn.get(qn, [])
        if nparams is not None:
            c = [f for f in c if len(f["params"]) == nparams]
        if cls is not None:
            c = [f for f in c if cls in f.get("cls", "")]
        if pred is not None:
            c = [f for f in c if pred(f)]
        if not c:
            raise AstError("no definition of %s in the current source" % qn)
        return c[0]

    def bases(self, cls):
        out, todo = [], [strip_cv(cls)]
        while todo:
            c = todo.pop(0)
            if c in out:
                continue
            out.append(c)
            r = self.recs.get(c)
            if r:
                todo += [strip_cv(b) for b in r["bases"]]
        return out

    def field_type(self, cls, name):
        for c in self.bases(cls):
            r = self.recs.get(c)
            if r:
                for f in r["fields"]:
                    if f["name"] == name:
                        return f["t"]
        return None

    def all_fields(self, cls):
        out = []
        for c in self.bases(cls):
            r = self.recs.get(c)
            if r:
                out += [(f["name"], f["t"], f.get("init"), c) for f in r["fields"]]
        return out

    def is_poly(self, cls):
        return True
