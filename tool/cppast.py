"""Load the clang AST of the repository's C++ sources.

Every run asks clang for the AST of /repo's current files (clang++
-Xclang -ast-dump=json); nothing is cached between runs.
"""
import json
import os
import re
import subprocess

CLANG = "/usr/bin/clang++-18"
if not os.path.exists(CLANG):
    CLANG = "/usr/bin/clang++"


class ExtractionError(Exception):
    """The source uses a construct outside the translated subset."""


def clang_flags(repo):
    return ["-std=c++11", "-I" + os.path.join(repo, "src/cliquematch")]


def py_flags():
    inc = []
    for cand in ("/opt/vp/venv",):
        import glob
        inc += ["-isystem" + p for p in glob.glob(cand + "/lib/python*/site-packages/pybind11/include")]
    import sysconfig
    for v in ("/usr/include/python3.12", sysconfig.get_paths()["include"]):
        if os.path.exists(os.path.join(v, "Python.h")):
            inc.append("-isystem" + v)
            break
    inc.append("-isystem/usr/include/eigen3")
    return inc


def dump(repo, tu, extra=(), filt="cliquematch", std=None):
    path = os.path.join(repo, "src/cliquematch", tu)
    flags = clang_flags(repo)
    if std:
        flags = ["-std=" + std] + flags[1:]
    cmd = [CLANG] + flags + list(extra) + [
        "-fsyntax-only", "-w", "-Xclang", "-ast-dump=json",
        "-Xclang", "-ast-dump-filter=" + filt, path]
    p = subprocess.run(cmd, capture_output=True)
    if p.returncode != 0:
        raise ExtractionError("clang failed on %s: %s" % (tu, p.stderr.decode()[-2000:]))
    s = p.stdout.decode()
    dec = json.JSONDecoder()
    out = []
    i = 0
    n = len(s)
    while True:
        i = s.find("{", i)
        if i < 0 or i >= n:
            break
        o, i = dec.raw_decode(s, i)
        out.append(o)
    state = {"file": None, "line": None}
    for o in out:
        _fixloc(o, state)
    return out


def _loc(l, state):
    """clang omits file/line when unchanged; restore them."""
    if not isinstance(l, dict):
        return
    if "spellingLoc" in l or "expansionLoc" in l:
        for k in ("spellingLoc", "expansionLoc"):
            if k in l:
                _loc(l[k], state)
        e = l.get("expansionLoc", {})
        l["file"], l["line"] = e.get("file"), e.get("line")
        return
    if "offset" not in l:
        return
    if "file" in l:
        state["file"] = l["file"]
    if "line" in l:
        state["line"] = l["line"]
    l["file"] = state["file"]
    l["line"] = state["line"]


def _fixloc(n, state):
    for k, v in n.items():
        if k == "loc":
            _loc(v, state)
        elif k == "range":
            _loc(v.get("begin"), state)
            _loc(v.get("end"), state)
        elif k == "inner":
            for c in v:
                if c:
                    _fixloc(c, state)
        elif isinstance(v, dict):
            _fixloc(v, state)
        elif isinstance(v, list):
            for c in v:
                if isinstance(c, dict):
                    _fixloc(c, state)


def line_of(n):
    r = n.get("range", {}).get("begin", {})
    return r.get("line")


def file_of(n):
    r = n.get("range", {}).get("begin", {})
    return r.get("file") or n.get("loc", {}).get("file")


def qtype(n):
    t = n.get("type", {})
    return t.get("desugaredQualType", t.get("qualType", ""))


class TU:
    """One translation unit: index of declarations by id and by qualified name."""

    def __init__(self, repo, tu, extra=(), std=None):
        self.tu = tu
        self.docs = dump(repo, tu, extra, std=std)
        self.by_id = {}
        self.parent = {}
        self.funcs = []     # (qualname, node, record node or None)
        self.records = {}   # qualname -> node with fields
        self.enums = {}
        self.consts = {}
        self.qual = {}
        self.patterns = set()
        for d in self.docs:
            self._index(d, [], None)

    def _index(self, n, path, rec):
        k = n.get("kind", "")
        if "id" in n and (k.endswith("Decl")):
            old = self.by_id.get(n["id"])
            if old is None or len(n.get("inner", [])) >= len(old.get("inner", [])):
                self.by_id[n["id"]] = n
        name = n.get("name")
        if k == "NamespaceDecl":
            for c in n.get("inner", []):
                self._index(c, path + [name or ""], None)
            return
        if k in ("CXXRecordDecl", "ClassTemplateSpecializationDecl"):
            q = path + [name or ""]
            self.qual[n["id"]] = "::".join(q)
            if n.get("completeDefinition"):
                self.records["::".join(q)] = n
            for c in n.get("inner", []):
                self._index(c, q, n)
            return
        if k == "ClassTemplateDecl":
            for c in n.get("inner", []):
                if c.get("kind") == "CXXRecordDecl":        # the pattern; its instances follow
                    self.patterns.add(c["id"])
                else:
                    self._index(c, path, rec)
            return
        if k == "FunctionTemplateDecl":
            for c in n.get("inner", []):
                if any(x and x.get("kind") == "TemplateArgument" for x in c.get("inner", [])):
                    self._index(c, path, rec)
            return
        if k == "EnumDecl":
            self.enums["::".join(path + [name or ""])] = n
            for c in n.get("inner", []):
                if c.get("kind") == "EnumConstantDecl":
                    self.by_id[c["id"]] = c
            return
        if k in ("FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl", "CXXDestructorDecl", "CXXConversionDecl"):
            q = path + [name or ""]
            if n.get("parentDeclContextId") in self.patterns:
                return
            if k != "FunctionDecl" and rec is None:
                # out-of-line definition: the class is the parent context
                pid = n.get("parentDeclContextId")
                if pid and pid in self.qual:
                    q = self.qual[pid].split("::") + [name or ""]
                else:
                    prev = self.by_id.get(n.get("previousDecl"))
                    if prev is not None and "_qual" in prev:
                        q = prev["_qual"].split("::")
            elif k == "FunctionDecl":
                pass
            n["_qual"] = "::".join(q)
            for c in n.get("inner", []):
                if c and c.get("kind") == "ParmVarDecl":
                    self.by_id[c["id"]] = c
            self.funcs.append(("::".join(q), n))
            return
        if k == "VarDecl" and rec is None and name and n.get("inner"):
            self.consts[name] = n
            return
        if k == "VarDecl" or k == "FieldDecl":
            return
        if k == "FriendDecl":
            for c in n.get("inner", []):
                if c.get("kind") == "FunctionDecl":
                    self._index(c, path[:-1], None)
            return
        if k == "LinkageSpecDecl":
            for c in n.get("inner", []):
                self._index(c, path, rec)


def body_of(fn):
    for c in fn.get("inner", []):
        if c and c.get("kind") in ("CompoundStmt", "CXXTryStmt"):
            return c
    return None


def params_of(fn):
    return [c for c in fn.get("inner", []) if c and c.get("kind") == "ParmVarDecl"]
