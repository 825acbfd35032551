"""Translate methods of the repository's Python classes, by their contracts' signatures.

A contract with a @sig line belongs to a Python method.  The classes are read
with Python's own ast module, the names the extension module offers to them
from clang's syntax tree of the pybind11 definitions.
"""
import ast
import os
import re
from cppast import ExtractionError, TU, body_of, file_of, line_of
from translate import inner
import emit as E

COPY = ("u64", "bool", "Dbl", "PyObj", "Metric", "Cond", "Elem")


def is_copy(t):
    return t in COPY or t.startswith("Option<") and is_copy(t[7:-1])


def split_args(s):
    out, depth, cur = [], 0, ""
    for ch in s:
        depth += ch in "<([" and 1 or 0
        depth -= ch in ">)]" and 1 or 0
        if ch == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    return out + [cur.strip()] if cur.strip() else out


# ---- what the extension module offers
def walk(n, out=None):
    out = [] if out is None else out
    out.append(n)
    for c in inner(n):
        walk(c, out)
    return out


class Bound:
    """One pybind11 definition: the C++ function or field behind a Python name."""

    def __init__(self, kind, target, args, forwards=None, cls=None):
        self.kind, self.target, self.args, self.forwards, self.cls = kind, target, args, forwards, cls


def text_arg(n):
    s = [x for x in walk(n) if x.get("kind") == "StringLiteral"]
    return s[0]["value"].strip('"') if s else None


class Bindings:
    def __init__(self, tus):
        self.cls, self.fns = {}, {}
        for tu in tus:
            for q, f in [x[:2] for x in tu.funcs]:
                if q.split("::")[-1].startswith("init_") and body_of(f):
                    self.read(body_of(f))

    def read(self, body):
        for st in inner(body):
            for c in walk(st):
                if c.get("kind") == "CXXMemberCallExpr" and inner(c)[0].get("name") in ("def", "def_readonly", "def_static"):
                    self.add(c)

    def add(self, c):
        how, args = inner(c)[0]["name"], inner(c)[1:]
        if not args or text_arg(args[0]) is None:
            return
        name = text_arg(args[0])
        owner = re.search(r"class_<([\w:]+)", inner(c)[0].get("type", {}).get("qualType", "") + inner(inner(c)[0])[0].get("type", {}).get("desugaredQualType", inner(inner(c)[0])[0].get("type", {}).get("qualType", "")))
        if len(args) < 2:
            return
        named = [text_arg(a) for a in args[2:] if any(x.get("kind") == "UserDefinedLiteral" or x.get("kind") == "CXXConstructExpr" and "arg" in x.get("type", {}).get("qualType", "") for x in walk(a))]
        lam = [x for x in walk(args[1]) if x.get("kind") == "LambdaExpr"]
        refs = [x["referencedDecl"] for x in walk(args[1]) if x.get("kind") == "DeclRefExpr"]
        if lam:
            b = self.from_lambda(lam[0], named)
        elif how == "def_readonly":
            b = Bound("field", refs[0]["name"], [])
        else:
            b = Bound("fn", refs[0]["name"], named)
            b.ref = refs[0]
        if b is None:
            return
        if owner:
            b.cls = owner.group(1).split("::")[-1]
            self.cls.setdefault(b.cls, {})[name] = b
        else:
            self.fns.setdefault(name, []).append(b)

    @staticmethod
    def from_lambda(n, named):
        op = next(x for x in walk(n) if x.get("kind") == "CXXMethodDecl" and x.get("name") == "operator()")
        ps = [x["name"] for x in inner(op) if x.get("kind") == "ParmVarDecl"]
        st = [x for x in inner(inner(n)[-1])] if inner(n)[-1].get("kind") == "CompoundStmt" else []
        if len(st) != 1 or st[0].get("kind") != "ReturnStmt":
            return None
        for x in walk(st[0]):
            if x.get("kind") in ("CXXTemporaryObjectExpr", "CallExpr"):
                xs = inner(x)
                fw = []
                for a in xs if x["kind"] == "CXXTemporaryObjectExpr" else xs[1:]:
                    rs = [y["referencedDecl"]["name"] for y in walk(a) if y.get("kind") == "DeclRefExpr" and y["referencedDecl"]["kind"] == "ParmVarDecl"]
                    if a.get("kind") == "CXXDefaultArgExpr":
                        fw.append(None)
                    elif len(rs) == 1:
                        fw.append(rs[0])
                    else:
                        return None
                t = x.get("type", {}).get("qualType", "").split("::")[-1] if x["kind"] == "CXXTemporaryObjectExpr" else next(
                    (y["referencedDecl"]["name"] for y in walk(xs[0]) if y.get("kind") == "DeclRefExpr"), None)
                return Bound("ctor" if x["kind"] == "CXXTemporaryObjectExpr" else "call", t, ps, fw)
        return None


# ---- classes
class Plain(ast.NodeTransformer):
    """Other ways to write the same: each is turned into the one the translation knows"""
    def __init__(self, methods):
        self.methods = {m.name: len(m.args.args) - 1 for m in methods}
        self.deep = 0
        self.grown = set()

    def visit_FunctionDef(self, n):
        # a function inside a method that only returns a value
        if self.deep and not n.decorator_list and len(n.body) == 1 and isinstance(n.body[0], ast.Return) and n.body[0].value is not None and self.simple(n.args):
            return self.at(ast.Assign([ast.Name(n.name, ast.Store())], self.visit(ast.Lambda(n.args, n.body[0].value))), n)
        keep, self.grown = self.grown, self.lists(n)
        self.deep += 1
        self.generic_visit(n)
        self.deep -= 1
        self.grown = keep
        return n

    @staticmethod
    def simple(a):
        return not (a.defaults or a.vararg or a.kwarg or a.kwonlyargs or a.posonlyargs)

    @staticmethod
    def at(new, old):
        return ast.fix_missing_locations(ast.copy_location(new, old))

    @staticmethod
    def lists(f):
        """Local lists no one else can have a hold of"""
        out, fine = set(), set()
        for n in ast.walk(f):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.List):
                out.add(n.targets[0].id)
            if isinstance(n, ast.BinOp):
                fine |= {id(n.left), id(n.right)}
            if isinstance(n, (ast.Starred, ast.Return)):
                fine.add(id(n.value))
            if isinstance(n, ast.Attribute) and n.attr in ("append", "extend"):
                fine.add(id(n.value))
        for n in ast.walk(f):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and id(n) not in fine:
                out.discard(n.id)
        return out

    def visit_Expr(self, n):
        self.generic_visit(n)
        c = n.value
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Name) and c.func.value.id in self.grown and len(c.args) == 1 and not c.keywords:
            x = c.func.value.id
            more = ast.List([c.args[0]], ast.Load()) if c.func.attr == "append" else c.args[0] if c.func.attr == "extend" and isinstance(c.args[0], ast.List) else None
            if more is not None:
                return self.at(ast.Assign([ast.Name(x, ast.Store())], ast.BinOp(ast.Name(x, ast.Load()), ast.Add(), more)), n)
        return n

    def visit_Return(self, n):
        self.generic_visit(n)
        if isinstance(n.value, ast.IfExp):
            v = n.value
            return self.at(ast.If(v.test, [ast.Return(v.body)], [ast.Return(v.orelse)]), n)
        return n

    def visit_Assign(self, n):
        self.generic_visit(n)
        t, v = n.targets[0], n.value
        if len(n.targets) == 1 and isinstance(t, ast.Tuple) and isinstance(v, ast.Tuple) and len(t.elts) == len(v.elts) and all(isinstance(x, ast.Name) for x in t.elts):
            names = {x.id for x in t.elts}
            if len(names) == len(t.elts) and not any(isinstance(x, ast.Name) and x.id in names for x in ast.walk(v)):
                return [self.at(ast.Assign([a], b), n) for a, b in zip(t.elts, v.elts)]
        return n

    def visit_Dict(self, n):
        self.generic_visit(n)
        return n if n.keys else self.at(ast.Call(ast.Name("dict", ast.Load()), [], []), n)

    def visit_Call(self, n):
        self.generic_visit(n)
        # list(map(lambda x: e, l))
        if isinstance(n.func, ast.Name) and n.func.id == "list" and len(n.args) == 1 and not n.keywords:
            m = n.args[0]
            if isinstance(m, ast.Call) and isinstance(m.func, ast.Name) and m.func.id == "map" and len(m.args) == 2 and not m.keywords and isinstance(m.args[0], ast.Lambda):
                l = m.args[0]
                if self.simple(l.args) and len(l.args.args) == 1:
                    g = ast.comprehension(ast.Name(l.args.args[0].arg, ast.Store()), m.args[1], [], 0)
                    return self.at(ast.ListComp(l.body, [g]), n)
        # a method handed on
        for i, a in enumerate(n.args):
            if isinstance(a, ast.Attribute) and isinstance(a.value, ast.Name) and a.value.id == "self" and self.methods.get(a.attr) == 1:
                p = ast.arguments([], [ast.arg("x_")], None, [], [], None, [])
                n.args[i] = self.at(ast.Lambda(p, ast.Call(a, [ast.Name("x_", ast.Load())], [])), a)
        return n


class Module:
    def __init__(self, repo, files):
        self.classes = {}
        for f in files:
            path = os.path.join(repo, "src/cliquematch", f)
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                try:
                    tree = ast.parse(open(path).read())
                except (SyntaxError, OSError) as e:
                    raise ExtractionError("%s: %s" % (f, e))
            for n in tree.body:
                if isinstance(n, ast.ClassDef):
                    n = Plain([m for m in n.body if isinstance(m, ast.FunctionDef)]).visit(n)
                    self.classes[n.name] = (n, path, [b.id for b in n.bases if isinstance(b, ast.Name)])

    def mro(self, cls):
        out = [cls]
        while cls in self.classes:
            bs = [b for b in self.classes[cls][2] if b != "object"]
            if len(bs) > 1:
                raise ExtractionError("several base classes")
            if not bs:
                break
            cls = bs[0]
            out.append(cls)
        return out

    def find(self, cls, name):
        for c in self.mro(cls):
            if c in self.classes:
                hits = [n for n in self.classes[c][0].body if isinstance(n, ast.FunctionDef) and n.name == name]
                if len(hits) == 1:
                    if hits[0].decorator_list:
                        raise ExtractionError("decorated method")
                    return c, hits[0], self.classes[c][1]
                if hits:
                    raise ExtractionError("several methods of one name")
        return None

    def foreign(self, cls):
        return next((c for c in self.mro(cls) if c not in self.classes), None)


class X:
    """An expression: Rust text, type, and whether it names a place (by reference?)"""

    def __init__(self, code, ty, place=False, ref=False):
        self.code, self.ty, self.place, self.ref = code, ty, place, ref

    def value(self):
        if is_copy(self.ty):
            return "*" + self.code if self.ref else self.code
        if not self.place:
            return self.code
        return "alias(%s)" % (self.code if self.ref else "&" + self.code)

    def by_ref(self):
        return self.code if self.ref else "&" + self.code


class Sig:
    def __init__(self, sig):
        m = re.match(r"^\((.*)\)\s*->\s*(.*)$", sig)
        self.params, self.rett = split_args(m.group(1)), m.group(2).strip()


def translate(unit, name, spec):
    """The method of a contract, its locals under the contract's names"""
    if name.startswith("bound_"):
        return BoundFn(unit, name, spec)
    f = PyFn(unit, name, spec)
    f.render()
    have = {n for t, n in f.decls}
    want = [(t, n) for t, n in spec.locals if n not in have]
    ren = {}
    for t, n in want:
        c = [m for u, m in f.decls if u.replace(" ", "") == t.replace(" ", "") and m not in ren and m not in [y for x, y in spec.locals]]
        if c:
            ren[c[0]] = n
    if ren:
        f = PyFn(unit, name, spec, ren)
        f.render()
    return f


class BoundFn:
    """The choice pybind11 makes among the functions of one Python name: by the number and kinds of the arguments.

    All functions of the name must pass their arguments on to one C++ function;
    what they leave out is that function's default.
    """
    KINDS = {"&mut pygraph": "This", "&PyObj": "Obj", "u64": "Int", "Dbl": "Real", "bool": "Truth", "&Metric": "Dist", "&Cond": "Test", "Metric": "Dist", "Cond": "Test", "PyObj": "Obj"}

    def __init__(self, unit, name, spec):
        self.unit, self.name, self.spec = unit, name, spec
        self.file, self.line, self.loopno, self.inlined = None, None, [0], []
        py = name[len("bound"):]
        bs = unit.bindings.fns.get(py)
        if not bs:
            raise ExtractionError("no function %s in the extension module" % py)
        self.lines = [("//@fn begin", 0)]
        seen = {}
        for b in bs:
            f = unit.prog.by_spec.get(b.target)
            if f is None:
                raise ExtractionError("no contract for " + b.target)
            if self.file is None:
                self.file, self.line = file_of(f.node), line_of(f.node)
            ps, rt, sh = E.signature(f, unit.specs)
            ts = [p.split(":", 1)[1].strip() for p in ps]
            fw = b.forwards if b.kind == "call" else list(range(len(ts)))
            names = b.args if b.kind == "call" else list(range(len(ts)))
            if len(fw) != len(ts):
                raise ExtractionError("functions of " + py)
            what = (b.target, [None if x is None else names.index(x) for x in fw])
            if len(names) in seen:
                # the same for other types of sets
                if seen[len(names)] != what:
                    raise ExtractionError("functions of " + py)
                continue
            seen[len(names)] = what
            kinds, args = {}, []
            for p, x, t in zip(f.params, fw, ts):
                if x is None:
                    args.append(self.default(p, t))
                else:
                    kinds[x] = self.KINDS[t]
                    args.append("pg" if t == "&mut pygraph" else ("&" if t.startswith("&") else "") + "a%d_" % names.index(x))
            if set(kinds) != set(names) or kinds[names[0]] != "This":
                raise ExtractionError("arguments of " + py)
            pat = ["Val::This"] + ["Val::%s(a%d_)" % (kinds[n], i) for i, n in list(enumerate(names))[1:]]
            self.emit("if v.len() == %d {" % len(names))
            self.emit("    match (%s) {" % ", ".join(self.tup(["v[%d]" % i for i in range(len(names))])))
            self.emit("        (%s) => { return %s(%s); }" % (", ".join(self.tup(pat)), f.rust_name(), ", ".join(args)))
            self.emit("        _ => {}\n    }\n    }")
        self.lines.append(("//@fn end", 0))
        self.emit("Err(CmError)")

    @staticmethod
    def tup(xs):
        """Tuples of at most six, nested"""
        return xs if len(xs) <= 6 else xs[:5] + ["(%s)" % ", ".join(BoundFn.tup(xs[5:]))]

    def emit(self, t):
        self.lines.append(("    " + t, self.line))

    def default(self, p, t):
        xs = walk(p)
        if t == "bool":
            v = [x for x in xs if x.get("kind") == "CXXBoolLiteralExpr"]
            if len(v) == 1:
                return "true" if v[0]["value"] else "false"
        if t in ("Metric", "&Metric"):
            r = [x["referencedDecl"]["name"] for x in xs if x.get("kind") == "DeclRefExpr" and x["referencedDecl"].get("kind") == "FunctionDecl"]
            if r == ["dummy_comparison"]:
                return ("&" if t.startswith("&") else "") + "plain_metric()"
        raise ExtractionError("default argument")

    def spec_name(self):
        return self.name


class PyFn:
    """Renders one method.  Attributes follow emit.Emitter where Unit.attach needs them."""

    def __init__(self, unit, name, spec, ren={}):
        self.unit, self.name, self.spec = unit, name, spec
        self.cls, self.meth = name.split("::")
        self.lam = re.match(r"^(\w+?)_lambda_(\w+)$", self.meth)
        self.dflt = re.match(r"^(\w+)_default$", self.meth)
        base = self.lam.group(1) if self.lam else self.dflt.group(1) if self.dflt else self.meth
        hit = unit.pymod.find(self.cls, base)
        if hit is None:
            raise ExtractionError("method not found in the source")
        self.owner, self.node, self.file = hit
        if ren:
            import copy
            self.node = copy.deepcopy(self.node)
            for n in ast.walk(self.node):
                if isinstance(n, ast.Name) and n.id in ren:
                    n.id = ren[n.id]
        self.decls = []
        self.line = self.node.lineno
        self.params, self.rett = Sig(spec.sig).params, Sig(spec.sig).rett
        self.throws = self.rett.startswith("Result<")
        self.ret = self.rett[7:-10].strip() if self.throws else self.rett
        self.loopno = [0]
        self.lines = []
        self.depth = 1
        self.tmp = 0
        self.cur = self.line
        self.lambdas = {}
        self.vars = {}
        self.aliased = set()
        self.valued = 0
        self.inlined = []

    def spec_name(self):
        return self.name

    def emit(self, s):
        self.lines.append(("    " * self.depth + s if not s.startswith("//@") else s, self.cur))

    def fresh(self, p="t"):
        self.tmp += 1
        return "%s%d_" % (p, self.tmp)

    def bad(self, n, why=""):
        raise ExtractionError("%s:%d: %s %s" % (os.path.basename(self.file), getattr(n, "lineno", 0), type(n).__name__, why))

    # ---- signature
    def signature(self):
        return self.params, self.rett

    def bind(self):
        a = self.node.args
        if a.vararg or a.kwarg or a.kwonlyargs or a.posonlyargs:
            self.bad(self.node, "parameters")
        names = [x.arg for x in a.args]
        have = []
        for p in self.params:
            m = re.match(r"^(&mut |&)?self$", p)
            if m:
                have.append(("self", self.cls, bool(m.group(1))))
            else:
                n, t = [x.strip() for x in p.split(":", 1)]
                have.append((n, t.lstrip("&").replace("mut ", "") if t.startswith("&") else t, t.startswith("&")))
        return names, have

    # ---- body
    def render(self):
        names, have = self.bind()
        self.emit("//@fn begin")
        if self.dflt:
            return self.render_default(names, have)
        if self.lam:
            return self.render_lambda(have)
        if self.node.name == "__init__":
            return self.render_init(names, have)
        want = [h[0] for h in have]
        if len(names) != len(want):
            self.bad(self.node, "has %d parameters, contract %d" % (len(names), len(want)))
        for n, (w, t, r) in zip(names, have):
            self.vars[n] = X("self" if w == "self" else w, t, True, r)
        self.block(self.node.body, last=True)
        if not self.returns(self.node.body):
            self.emit("//@fn end")
            self.emit("Ok(())" if self.throws else "")

    def render_default(self, names, have):
        """The call with all default values."""
        ds = self.node.args.defaults
        req = len(names) - len(ds)
        given = {n: X(w, t, True, r) for n, (w, t, r) in zip(names, have)}
        args = []
        callee = self.unit.pyspec(self.cls, self.dflt.group(1))
        for n, p in list(zip(names, callee.params))[1:]:
            ty = p.split(":", 1)[1].strip()
            if n in given:
                args.append(self.fit(given[n], ty))
            else:
                if names.index(n) < req:
                    self.bad(self.node, "no default for " + n)
                args.append(self.fit(self.ex(ds[names.index(n) - req], ty), ty))
        self.emit("//@fn end")
        self.emit("%sself.%s(%s)" % ("", self.dflt.group(1), ", ".join(args)))

    def render_init(self, names, have):
        fields = self.unit.pyclasses[self.cls]
        self.fields = {}
        for n, (w, t, r) in zip(names, [("self", self.cls, False)] + have):
            if n != "self":
                self.vars[n] = X(w, t, True, r)
        self.vars["self"] = X("this_", self.cls, True)
        self.init = set()
        self.init_body(self.node.body, self.owner)
        missing = [f for f in fields if f not in self.init]
        if missing:
            self.bad(self.node, "does not set " + " ".join(missing))
        self.emit("//@fn end")
        v = "%s { %s }" % (self.cls, ", ".join("%s: self_%s" % (f, f) for f in fields))
        self.emit("Ok(%s)" % v if self.throws else v)

    def init_body(self, body, owner):
        for st in body:
            c = st.value if isinstance(st, ast.Expr) else None
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == "__init__":
                args = c.args
                if isinstance(c.func.value, ast.Call) and isinstance(c.func.value.func, ast.Name) and c.func.value.func.id == "super":
                    sup = self.unit.pymod.mro(owner)[1:]
                elif isinstance(c.func.value, ast.Name):
                    sup, args = [c.func.value.id], args[1:]
                else:
                    self.bad(st)
                if not sup or c.keywords:
                    self.bad(st, "super")
                if sup[0] not in self.unit.pymod.classes:
                    if args:
                        self.bad(st, "arguments for the base class")
                    self.emit("let mut self_base = pygraph::new();")
                    self.init.add("base")
                    continue
                hit = self.unit.pymod.find(sup[0], "__init__")
                ps = [a.arg for a in hit[1].args.args][1:]
                ds = hit[1].args.defaults
                keep, new = self.vars, {"self": self.vars["self"]}
                for i, p in enumerate(ps):
                    if i < len(args):
                        new[p] = self.ex(args[i])
                    else:
                        d = ds[i - (len(ps) - len(ds))]
                        new[p] = self.ex(d)
                self.vars = new
                self.init_body(hit[1].body, hit[0])
                self.vars = keep
            else:
                self.stmt(st)

    def set_field(self, n, v):
        """self.n = v inside __init__"""
        fields = self.unit.pyclasses[self.cls]
        if n not in fields:
            self.bad(n, "field " + str(n))
        code = self.fit(self.ex(v, fields[n]), fields[n])
        if n in self.init:
            self.emit("self_%s = %s;" % (n, code))
        else:
            if self.depth > 1:
                raise ExtractionError("field %s set on some paths only" % n)
            self.emit("let mut self_%s: %s = %s;" % (n, fields[n], code))
            self.init.add(n)

    def values(self):
        """Function values that are handed on, in the order of the text"""
        named = {id(st.value) for st in ast.walk(self.node) if isinstance(st, ast.Assign) and isinstance(st.value, ast.Lambda)}
        return sorted([n for n in ast.walk(self.node) if isinstance(n, ast.Lambda) and id(n) not in named], key=lambda n: (n.lineno, n.col_offset))

    def enter_lambda(self, l):
        for st in self.node.body:
            if isinstance(st, ast.Assign) and isinstance(st.value, ast.Lambda) and isinstance(st.targets[0], ast.Name):
                self.lambdas[st.targets[0].id] = st.value
        hv = {w: X("self" if w == "self" else w, t, True, r) for w, t, r in self.bind()[1]}
        self.vars["self"] = hv.pop("self")
        if len(l.args.args) != len(hv):
            self.bad(l, "parameters")
        for a, x in zip(l.args.args, hv.values()):
            self.vars[a.arg] = x
        self.cur = l.lineno
        return self.ex(l.body, self.ret)

    def kind_of(self, l):
        """Which of the contracts of function values of this method a lambda is to meet: by the type of its result"""
        pre = "%s::%s_lambda_" % (self.cls, self.lam.group(1) if self.lam else self.meth)
        out = []
        for k in [k for k in self.unit.specs if k.startswith(pre)]:
            t = PyFn(self.unit, k, self.unit.specs[k])
            try:
                x = t.enter_lambda(l)
            except ExtractionError:
                continue
            if (k[len(pre):], x.ty) in self.unit.pyenums[t.ret]:
                out.append(k[len(pre):])
        if len(out) != 1:
            self.bad(l, "fits %d contracts" % len(out))
        return out[0]

    def render_lambda(self, have):
        ls = [l for l in self.values() if self.kind_of(l) == self.lam.group(2)]
        if len(ls) != 1:
            self.bad(self.node, "has %d function values of this kind" % len(ls))
        self.give(self.enter_lambda(ls[0]), ls[0])

    def give(self, x, n):
        code = self.fit(x, self.ret)
        self.emit("return %s;" % ("Ok(%s)" % code if self.throws else code))

    def fit(self, x, want):
        """A value of the wanted type"""
        if want.startswith("&mut "):
            return "&mut " + x.code if not x.ref else x.code
        if want.startswith("&"):
            if x.ty != want[1:].strip():
                raise ExtractionError("a %s where a %s is wanted" % (x.ty, want))
            return x.by_ref()
        if x.ty == want:
            return x.value()
        if want.startswith("Option<") and x.ty == "None":
            return "None"
        if want.startswith("Option<"):
            return "Some(%s)" % self.fit(x, want[7:-1])
        if x.ty.startswith("Option<") and x.ty[7:-1] == want:
            raise ExtractionError("a value that may be None where a %s is wanted" % want)
        for v, t in self.unit.pyenums.get(want, []):
            if t == x.ty:
                return "%s::%s(%s)" % (want, v, x.value())
        raise ExtractionError("a %s where a %s is wanted" % (x.ty, want))

    # ---- statements
    def returns(self, body):
        if not body:
            return False
        s = body[-1]
        return isinstance(s, (ast.Return, ast.Raise)) or isinstance(s, ast.If) and self.returns(s.body) and self.returns(s.orelse)

    @staticmethod
    def returned(body):
        """x = … at the end of both branches and then return x: the branches return it"""
        if len(body) < 2 or not (isinstance(body[-1], ast.Return) and isinstance(body[-1].value, ast.Name) and isinstance(body[-2], ast.If)):
            return body
        x, s = body[-1].value.id, body[-2]

        def turn(b):
            if not (b and isinstance(b[-1], ast.Assign) and len(b[-1].targets) == 1 and isinstance(b[-1].targets[0], ast.Name) and b[-1].targets[0].id == x):
                return None
            return b[:-1] + [ast.copy_location(ast.Return(b[-1].value), b[-1])]
        a, b = turn(s.body), turn(s.orelse)
        if a is None or b is None:
            return body
        return body[:-2] + [ast.copy_location(ast.If(s.test, a, b), s)]

    def block(self, body, last=False):
        body = self.returned(body)
        for i, s in enumerate(body):
            self.stmt(s, last and i == len(body) - 1)

    def stmt(self, s, last=False):
        self.cur = s.lineno
        if isinstance(s, ast.Pass):
            return
        if isinstance(s, ast.Expr):
            if isinstance(s.value, ast.Constant):
                return
            if isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name) and s.value.func.id in ("warn", "print"):
                return
            x = self.ex(s.value)
            self.emit("let _ = %s;" % x.code if not x.place else "")
            return
        if isinstance(s, ast.Assign):
            if len(s.targets) != 1:
                self.bad(s)
            return self.assign(s.targets[0], s.value, s)
        if isinstance(s, ast.AnnAssign) and s.value is not None:
            return self.assign(s.target, s.value, s)
        if isinstance(s, ast.AugAssign):
            l = ast.copy_location(ast.Name(s.target.id, ast.Load()), s) if isinstance(s.target, ast.Name) else self.bad(s)
            return self.assign(s.target, ast.copy_location(ast.BinOp(l, s.op, s.value), s), s)
        if isinstance(s, ast.Return):
            if last:
                self.emit("//@fn end")
            if s.value is None:
                self.emit("return Ok(());" if self.throws else "return;")
            else:
                self.give(self.ex(s.value, self.ret), s)
            return
        if isinstance(s, ast.If):
            c = self.cond(s.test)
            self.emit("if %s {" % c)
            self.depth += 1
            keep = dict(self.vars)
            self.narrow(s.test, True)
            self.block(s.body)
            self.vars = {k: v for k, v in self.vars.items() if k in keep}
            self.depth -= 1
            if s.orelse:
                self.emit("} else {")
                self.depth += 1
                self.vars = dict(keep)
                self.narrow(s.test, False)
                self.block(s.orelse)
                self.vars = dict(keep)
                self.depth -= 1
            else:
                self.vars = dict(keep)
            self.emit("}")
            return
        if isinstance(s, ast.For) and not s.orelse:
            return self.loop(s)
        self.bad(s)

    def narrow(self, t, yes):
        """if x: / if x is not None: the value inside is there"""
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            return self.narrow(t.operand, not yes)
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value is None:
            if isinstance(t.ops[0], ast.Is):
                yes = not yes
            elif not isinstance(t.ops[0], ast.IsNot):
                return
            t = t.left
        if not yes:
            return
        key = self.key(t)
        if key is None:
            return
        x = self.ex(t)
        if x.ty.startswith("Option<"):
            v = self.fresh("v")
            self.emit("let %s = %s.unwrap();" % (v, x.value() if "*" not in x.value() else "(%s)" % x.value()))
            self.vars[key] = X(v, x.ty[7:-1], True)

    @staticmethod
    def key(t):
        if isinstance(t, ast.Name):
            return t.id
        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == "self":
            return "self." + t.attr
        return None

    def assign(self, t, v, s):
        if isinstance(t, ast.Name):
            if isinstance(v, ast.Lambda):
                if t.id in self.lambdas or t.id in self.vars:
                    self.bad(s, "a name bound twice")
                self.lambdas[t.id] = v
                return
            x = self.ex(v, self.vars[t.id].ty if t.id in self.vars else None)
            if isinstance(v, (ast.Name, ast.Attribute)) and not is_copy(x.ty):
                self.aliased |= {t.id, self.key(v) or ""}
            nm = E.ident(t.id)
            old = self.vars.get(t.id)
            if old and old.ty == x.ty and not old.ref and old.code == nm:
                self.emit("%s = %s;" % (nm, x.value()))
            else:
                if old and self.depth > 1 and old.code == nm:
                    self.bad(s, "a name of two types")
                self.emit("let mut %s: %s = %s;" % (nm, x.ty, x.value()))
                self.vars[t.id] = X(nm, x.ty, True)
                self.decls.append((x.ty, t.id))
            return
        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == "self":
            if hasattr(self, "fields"):
                return self.set_field(t.attr, v)
            f = self.unit.pyclasses[self.cls]
            if t.attr not in f:
                self.bad(s, "field")
            self.emit("self.%s = %s;" % (t.attr, self.fit(self.ex(v, f[t.attr]), f[t.attr])))
            self.vars.pop("self." + t.attr, None)
            return
        if isinstance(t, ast.Subscript):
            if not isinstance(t.value, ast.Name) or t.value.id in self.aliased:
                self.bad(s, "element of a shared object")
            d = self.ex(t.value)
            m = re.match(r"^Dict<(.*)>$", d.ty)
            if m or d.ty == "Dict":
                x = self.ex(v)
                if d.ty == "Dict":
                    self.bad(s)
                k = self.hold(self.ex(t.slice))
                val = self.hold(x)
                if m.group(1) == "_":
                    self.settype(t.value.id, "Dict<%s>" % x.ty)
                elif m.group(1) != x.ty:
                    self.bad(s, "values of two types")
                self.emit("%s.set(%s, %s);" % (d.code, k.value(), val.code))
                return
        if isinstance(t, ast.Tuple) and isinstance(v, ast.Tuple) and len(t.elts) == len(v.elts):
            xs = [self.hold(self.ex(e)) for e in v.elts]
            for n, x in zip(t.elts, xs):
                if not isinstance(n, ast.Name):
                    self.bad(s)
                self.emit("let mut %s: %s = %s;" % (E.ident(n.id), x.ty, x.value()))
                self.vars[n.id] = X(E.ident(n.id), x.ty, True)
            return
        if isinstance(t, ast.Tuple):
            x = self.hold(self.ex(v))
            ts = self.parts(x)
            if len(ts) != len(t.elts):
                self.bad(s)
            for n, p in zip(t.elts, ts):
                self.emit("let mut %s: %s = %s;" % (E.ident(n.id), p.ty, p.value()))
                self.vars[n.id] = X(E.ident(n.id), p.ty, True)
            return
        self.bad(s)

    def settype(self, name, ty):
        """The first value stored decides what a dict or list holds."""
        x = self.vars[name]
        old = x.ty
        self.vars[name] = X(x.code, ty, True)
        self.decls = [(ty if n == name else t, n) for t, n in self.decls]
        for i, (l, c) in enumerate(self.lines):
            if "let mut %s: %s" % (x.code, old) in l:
                self.lines[i] = (l.replace(": " + old, ": " + ty), c)

    def hold(self, x):
        """Evaluate now."""
        if re.match(r"^[a-z]\w*$|^\d+\w*$", x.code) and is_copy(x.ty) and not x.ref:
            return x
        v = self.fresh()
        self.emit("let %s: %s = %s;" % (v, x.ty, x.value()))
        return X(v, x.ty, True)

    def source(self, it):
        """What a for loop runs over: (kind, list expression)"""
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and not it.keywords:
            if it.func.id == "range" and len(it.args) == 1:
                return "range", [self.hold(self.ex(it.args[0], "u64"))]
            if it.func.id == "zip" and len(it.args) == 2:
                return "zip", [self.listed(self.ex(a)) for a in it.args]
            if it.func.id == "enumerate" and len(it.args) == 1:
                return "enumerate", [self.listed(self.ex(it.args[0]))]
        return "list", [self.listed(self.ex(it))]

    def listed(self, x):
        """A list in the order of iteration"""
        if x.ty == "StdSet":
            v = self.fresh("l")
            self.emit("let %s = set_order(%s);" % (v, x.by_ref()))
            r = X(v, "Vec<u64>", True)
            r.of = x
            return r
        if x.ty.startswith("Vec<"):
            if x.place:
                return x
            return self.hold(x)
        raise ExtractionError("iteration over a " + x.ty)

    def loop(self, s):
        kind, src = self.source(s.iter)
        self.loopno[0] += 1
        no = self.loopno[0]
        it, n = "it%d_" % no, "n%d_" % no
        if kind == "range":
            self.emit("let %s: u64 = %s;" % (n, src[0].value()))
        elif kind == "zip":
            self.emit("let %s: u64 = u64_min(%s.len() as u64, %s.len() as u64);" % (n, src[0].code, src[1].code))
        else:
            self.emit("let %s: u64 = %s.len() as u64;" % (n, src[0].code))
        self.emit("let mut %s: u64 = 0;" % it)
        self.emit("//@loop %d before" % no)
        self.emit("while %s < %s" % (it, n))
        self.emit("//@loop %d spec" % no)
        self.emit("{")
        self.emit("//@loop %d begin" % no)
        self.depth += 1
        keep = dict(self.vars)

        def let(t, code, ty):
            if not isinstance(t, ast.Name):
                self.bad(s, "target")
            self.emit("let %s: %s = %s;" % (E.ident(t.id), ty, code))
            self.vars[t.id] = X(E.ident(t.id), ty, True)
        el = [x.ty[4:-1] for x in src] if kind != "range" else []
        if any(not is_copy(t) for t in el):
            self.bad(s, "elements")
        if kind == "range":
            let(s.target, it, "u64")
        elif kind == "list":
            let(s.target, "%s[%s as usize]" % (src[0].code, it), el[0])
        elif kind == "zip":
            if not isinstance(s.target, ast.Tuple) or len(s.target.elts) != 2:
                self.bad(s)
            for t, x, e in zip(s.target.elts, src, el):
                let(t, "%s[%s as usize]" % (x.code, it), e)
        else:
            let(s.target.elts[0], it, "u64")
            let(s.target.elts[1], "%s[%s as usize]" % (src[0].code, it), el[0])
        for b in ast.walk(s):
            if isinstance(b, (ast.Break, ast.Continue)):
                self.bad(b)
        self.block(s.body)
        self.emit("//@loop %d body_end" % no)
        self.emit("%s = %s + 1;" % (it, it))
        self.emit("//@loop %d end" % no)
        self.vars = {k: (self.vars[k] if self.vars[k].code == v.code else v) for k, v in keep.items() if k in self.vars}
        self.depth -= 1
        self.emit("}")
        self.emit("//@loop %d after" % no)

    # ---- expressions
    def cond(self, n):
        if isinstance(n, ast.BoolOp):
            op = " && " if isinstance(n.op, ast.And) else " || "
            return "(" + op.join(self.cond(v) for v in n.values) + ")"
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            return "!(%s)" % self.cond(n.operand)
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            o = n.ops[0]
            if isinstance(n.comparators[0], ast.Constant) and n.comparators[0].value is None:
                x = self.ex(n.left)
                if not x.ty.startswith("Option<"):
                    self.bad(n, "comparison with None")
                return "%s.is_some()" % x.code if isinstance(o, ast.IsNot) else "%s.is_none()" % x.code
            a, b = self.ex(n.left), self.ex(n.comparators[0], "u64")
            if isinstance(o, (ast.In, ast.NotIn)) and b.ty in ("StdSet",) or b.ty.startswith("Dict<"):
                return "%s%s.has(%s)" % ("!" if isinstance(o, ast.NotIn) else "", b.code, a.value())
            ops = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">="}
            if a.ty == b.ty == "u64" and type(o) in ops:
                return "%s %s %s" % (a.value(), ops[type(o)], b.value())
            self.bad(n)
        x = self.ex(n)
        if x.ty == "bool":
            return x.value()
        if x.ty.startswith("Option<") and x.ty[7:-1] in ("Metric", "Cond"):
            return "%s.is_some()" % x.code
        if x.ty in ("Metric", "Cond"):
            return "true"
        if x.ty == "u64":
            return "%s != 0" % x.value()
        if x.ty.startswith("Vec<"):
            return "%s.len() != 0" % x.code
        self.bad(n, "truth of a " + x.ty)

    def parts(self, x):
        m = re.match(r"^(Pair|Triple)<(.*)>$", x.ty)
        if not m:
            raise ExtractionError("parts of a " + x.ty)
        ts = split_args(m.group(2))
        return [X("%s.%s" % (x.code, f), t, True) for f, t in zip(("first", "second", "third"), ts)]

    def ex(self, n, want=None):
        f = getattr(self, "ex_" + type(n).__name__, None)
        if f is None:
            self.bad(n)
        return f(n, want)

    def ex_Constant(self, n, want):
        v = n.value
        if v is None:
            return X("None", "None")
        if isinstance(v, bool):
            return X("true" if v else "false", "bool")
        if isinstance(v, (int, float)) and (want == "Dbl" or isinstance(v, float)):
            from fractions import Fraction
            q = Fraction(repr(v))
            if q.denominator < 2 ** 62 and abs(q.numerator) < 2 ** 62:
                return X("dbl_lit(%d, %d)" % (q.numerator, q.denominator), "Dbl")
        if isinstance(v, int) and 0 <= v < 2 ** 64:
            return X("%du64" % v, "u64")
        self.bad(n)

    def ex_UnaryOp(self, n, want):
        if isinstance(n.op, ast.USub) and isinstance(n.operand, ast.Constant) and isinstance(n.operand.value, (int, float)):
            return self.ex(ast.copy_location(ast.Constant(-n.operand.value), n), want)
        if isinstance(n.op, ast.Not):
            return X("!(%s)" % self.cond(n.operand), "bool")
        self.bad(n)

    def ex_Compare(self, n, want):
        return X("(%s)" % self.cond(n), "bool")
    ex_BoolOp = ex_Compare

    def ex_Name(self, n, want):
        if n.id not in self.vars:
            self.bad(n, n.id)
        return self.vars[n.id]

    def ex_Attribute(self, n, want):
        k = self.key(n)
        if k and k in self.vars:
            return self.vars[k]
        b = self.ex(n.value)
        if b.ty in self.unit.pyclasses:
            f = self.unit.pyclasses[b.ty]
            if n.attr in f:
                if hasattr(self, "fields") and b.code == "this_":
                    if n.attr not in self.init:
                        self.bad(n, "field read before it is set")
                    return X("self_" + n.attr, f[n.attr], True)
                return X("%s.%s" % (b.code, n.attr), f[n.attr], True)
            if "base" in f:
                bd = self.unit.bindings.cls.get(f["base"], {}).get(n.attr)
                if bd and bd.kind == "field":
                    return X("%s.base.%s" % (b.code, bd.target), "u64" if n.attr.startswith("n_") else "bool", True)
        bd = self.unit.bindings.cls.get(b.ty, {}).get(n.attr)
        if bd and bd.kind == "field":
            return X("%s.%s" % (b.code, bd.target), "u64" if n.attr.startswith("n_") else "bool", True)
        self.bad(n, n.attr)

    def ex_Subscript(self, n, want):
        b = self.ex(n.value)
        if re.match(r"^(Pair|Triple)<", b.ty):
            i = n.slice
            if isinstance(i, ast.UnaryOp):
                i = ast.Constant(-i.operand.value) if isinstance(i.operand, ast.Constant) else i
            ps = self.parts(b if b.place else self.hold(b))
            if not isinstance(i, ast.Constant) or not isinstance(i.value, int) or not -len(ps) <= i.value < len(ps):
                self.bad(n, "index")
            return ps[i.value]
        i = self.ex(n.slice)
        m = re.match(r"^Dict<(.*)>$", b.ty)
        if m:
            return X("%s.at(%s)" % (b.code, i.value()), m.group(1), True, True)
        if b.ty.startswith("Vec<") and i.ty == "u64":
            return X("%s[%s as usize]" % (b.code, i.value()), b.ty[4:-1], True)
        if b.ty == "PyObj" and i.ty == "u64":
            return X("item(%s, %s)" % (b.by_ref(), i.value()), "Elem")
        if b.ty == "PyObj" and i.ty == "Vec<u64>":
            return X("rows_at(%s, %s)" % (b.by_ref(), i.by_ref()), "Vec<Elem>")
        self.bad(n, "%s[%s]" % (b.ty, i.ty))

    def ex_BinOp(self, n, want):
        a, b = self.ex(n.left), self.ex(n.right)
        if isinstance(n.op, ast.BitAnd) and a.ty == b.ty == "StdSet":
            return X("set_meet(%s, %s)" % (a.by_ref(), b.by_ref()), "StdSet")
        ops = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*"}
        if type(n.op) in ops and a.ty == b.ty == "u64":
            return X("(%s %s %s)" % (a.value(), ops[type(n.op)], b.value()), "u64")
        if isinstance(n.op, ast.Add) and a.ty == b.ty == "Vec<Val>":
            return X("vals_add(%s, %s)" % (a.value(), b.value()), "Vec<Val>")
        self.bad(n, "%s %s" % (a.ty, b.ty))

    def ex_Tuple(self, n, want):
        if len(n.elts) not in (2, 3):
            self.bad(n)
        return self.tuple_of(n, [self.ex(e) for e in n.elts])

    def tuple_of(self, n, xs):
        if len(n.elts) > 1 and any(not x.place for x in xs[1:]):
            xs = [self.hold(x) for x in xs]
        k = "Pair" if len(xs) == 2 else "Triple"
        return X("%s { %s }" % (k, ", ".join("%s: %s" % (f, x.value()) for f, x in zip(("first", "second", "third"), xs))),
                 "%s<%s>" % (k, ", ".join(x.ty for x in xs)))

    def ex_List(self, n, want):
        xs = [self.ex(e) for e in n.elts]
        if len(xs) == 2 and xs[0].ty == xs[1].ty and xs[0].ty.startswith("Vec<"):
            return self.tuple_of(n, xs)
        if xs and all(x.ty in ("u64",) for x in xs) and want != "Vec<Val>":
            v = self.fresh("l")
            self.emit("let mut %s: Vec<u64> = Vec::new();" % v)
            for x in xs:
                self.emit("vec_push(&mut %s, %s);" % (v, x.value()))
            return X(v, "Vec<u64>", True)
        v = self.fresh("l")
        self.emit("let mut %s: Vec<Val> = Vec::new();" % v)
        for x in xs:
            self.emit("vec_push(&mut %s, %s);" % (v, self.val(x)))
        return X(v, "Vec<Val>")

    def val(self, x):
        """One argument of a call whose arguments are put together in a list"""
        if x.ty == self.cls and x.code == "self":
            return "Val::This"
        k = {"u64": "Int", "bool": "Truth", "Dbl": "Real", "PyObj": "Obj", "Metric": "Dist", "Cond": "Test"}.get(x.ty)
        if k is None:
            raise ExtractionError("a %s in a list of arguments" % x.ty)
        return "Val::%s(%s)" % (k, x.value())

    def ex_IfExp(self, n, want):
        c = self.cond(n.test)
        a, b = self.ex(n.body, want), self.ex(n.orelse, want)
        if a.ty != b.ty:
            self.bad(n)
        return X("if %s { %s } else { %s }" % (c, a.value(), b.value()), a.ty)

    # comprehensions: a loop with the invariant that says what they mean
    def ex_ListComp(self, n, want):
        return self.comp(n, "list")

    def ex_SetComp(self, n, want):
        return self.comp(n, "set")

    def comp(self, n, kind):
        g = n.generators[0]
        if len(n.generators) != 1 or g.ifs or not isinstance(g.target, ast.Name):
            self.bad(n)
        it = self.ex(g.iter)
        src = self.listed(it if re.match(r"^[\w.]+$", it.code) else self.hold(it))
        el = src.ty[4:-1]
        k, acc, x = self.fresh("k"), self.fresh("acc"), E.ident(g.target.id) + self.fresh("_x")
        keep = self.vars.get(g.target.id)
        self.vars[g.target.id] = X("SRC_", el, True)
        sp, spt = self.spec_ex(n.elt)
        head = len(self.lines)
        self.emit("let mut %s: u64 = 0;" % k)
        self.emit("")       # the accumulator, once its type is known
        self.emit("#[verifier::loop_isolation(false)]")
        self.emit("while (%s as usize) < %s.len()" % (k, src.code))
        at = sp.replace("SRC_", "%s@[j]" % src.code)
        if kind == "list":
            self.emit("    invariant %s <= %s@.len(), %s@.len() == %s, forall|j: int| 0 <= j < %s ==> #[trigger] %s@[j] == %s," % (k, src.code, acc, k, k, acc, at))
        else:
            tr = sp.replace("SRC_", "(#[trigger] %s@[j])" % src.code, 1).replace("SRC_", "%s@[j]" % src.code)
            self.emit("    invariant %s <= %s@.len(), forall|y: u64| #[trigger] %s@.contains(y) == (exists|j: int| 0 <= j < %s && y == %s)," % (k, src.code, acc, k, tr))
        self.emit("    decreases %s@.len() - %s," % (src.code, k))
        self.emit("{")
        self.depth += 1
        self.emit("let %s: %s = %s[%s as usize];" % (x, el, src.code, k))
        self.vars[g.target.id] = X(x, el, True)
        if kind == "list":
            y = self.hold(self.ex(n.elt))
            self.emit("vec_push(&mut %s, %s);" % (acc, y.value()))
        else:
            y = self.hold(self.ex(n.elt))
            if y.ty != "u64":
                self.bad(n, "a set of " + y.ty)
            g0 = self.fresh("g")
            self.emit("let ghost %s = %s@;" % (g0, acc))
            self.emit("%s.insert(%s);" % (acc, y.value()))
            st = at.replace("@[j]", "@[%s as int]" % k)
            self.emit("proof { assert(%s == %s); assert forall|y: u64| #[trigger] %s@.contains(y) == (exists|j: int| 0 <= j < %s + 1 && y == %s) by {" % (y.code, st, acc, k, tr))
            self.emit("    if %s.contains(y) { let j = choose|j: int| 0 <= j < %s && y == %s; assert(0 <= j < %s + 1 && y == %s); }" % (g0, k, tr, k, at))
            self.emit("    else if y == %s { let j = %s as int; assert(0 <= j < %s + 1 && y == %s); }" % (y.code, k, k, at))
            self.emit("    if exists|j: int| 0 <= j < %s + 1 && y == %s { let j = choose|j: int| 0 <= j < %s + 1 && y == %s; if j < %s { assert(0 <= j < %s && y == %s); } }" % (k, tr, k, tr, k, k, at))
            self.emit("} }")
        self.emit("%s = %s + 1;" % (k, k))
        self.depth -= 1
        self.emit("}")
        ty = "StdSet" if kind == "set" else "Vec<%s>" % y.ty
        self.lines[head + 1] = ("    " * self.depth + "let mut %s: %s = %s::new();" % (acc, ty, "StdSet" if kind == "set" else "Vec"), self.cur)
        if kind == "set":
            of = getattr(src, "of", None)
            if of is not None:
                o = of.code
                a2, a3 = sp.replace("SRC_", "x"), sp.replace("SRC_", "x")
                self.emit("proof { assert forall|y: u64| #[trigger] %s@.contains(y) == (exists|x: u64| #[trigger] %s@.contains(x) && y == %s) by {" % (acc, o, a2))
                self.emit("    if %s@.contains(y) { let j = choose|j: int| 0 <= j < %s && y == %s; let x = %s@[j]; assert(%s@.contains(x) && y == %s); }" % (acc, k, tr, src.code, o, a2))
                self.emit("    if exists|x: u64| #[trigger] %s@.contains(x) && y == %s { let x = choose|x: u64| #[trigger] %s@.contains(x) && y == %s; let j = choose|j: int| 0 <= j < %s@.len() && %s@[j] == x; assert(0 <= j < %s && y == %s); }" % (o, a2, o, a2, src.code, src.code, k, at))
                self.emit("} }")
        if keep is None:
            self.vars.pop(g.target.id, None)
        else:
            self.vars[g.target.id] = keep
        return X(acc, ty, False)

    def spec_ex(self, n):
        """The value of an element, as a specification: text and type"""
        if isinstance(n, ast.Constant) and isinstance(n.value, int):
            return str(n.value), "u64"
        if isinstance(n, ast.Name):
            x = self.ex(n)
            return ("*" if x.ref and is_copy(x.ty) else "") + x.code, x.ty
        if isinstance(n, ast.BinOp) and type(n.op) in (ast.Add, ast.Sub, ast.Mult):
            a, b = self.spec_ex(n.left), self.spec_ex(n.right)
            if a[1] == b[1] == "u64":
                return "(%s %s %s)" % (a[0], {ast.Add: "+", ast.Sub: "-", ast.Mult: "*"}[type(n.op)], b[0]), "u64"
        if isinstance(n, ast.Subscript):
            b, i = self.ex(n.value), self.spec_ex(n.slice)
            m = re.match(r"^Dict<(.*)>$", b.ty)
            if m and m.group(1) == "u64":
                return "%s@[%s]" % (b.code, i[0]), "u64"
            if b.ty == "PyObj":
                return "elem(%s, %s as int)" % (b.value(), i[0]), "Elem"
            if b.ty.startswith("Vec<"):
                return "%s@[%s as int]" % (b.code, i[0]), b.ty[4:-1]
        if isinstance(n, ast.Attribute):
            x = self.ex(n)
            return x.code, x.ty
        self.bad(n, "inside a comprehension")

    def ex_Call(self, n, want):
        f = n.func
        if isinstance(f, ast.Name):
            if f.id in self.lambdas:
                return self.inline(self.lambdas[f.id], n)
            if f.id in self.vars:
                return self.call_value(self.vars[f.id], n)
            if f.id == "len" and len(n.args) == 1:
                x = self.ex(n.args[0])
                if x.ty.startswith("Vec<"):
                    return X("(%s.len() as u64)" % x.code, "u64")
                if x.ty == "PyObj":
                    return X("py_len(%s)" % x.by_ref(), "u64")
                if x.ty == "StdSet":
                    return X("%s.size()" % x.code, "u64")
            if f.id == "dict" and not n.args and not n.keywords:
                return X("Dict::new()", "Dict<_>")
            if f.id in ("set", "list", "tuple") and len(n.args) == 1:
                a = n.args[0]
                if isinstance(a, ast.GeneratorExp):
                    return self.comp(a, "set" if f.id == "set" else "list")
                x = self.ex(a)
                if f.id == "set" and x.ty == "Vec<u64>":
                    x = x if x.place else self.hold(x)
                    return X("set_of(%s)" % x.by_ref(), "StdSet")
                if x.ty.startswith("Vec<") and f.id != "set" or x.ty == "StdSet" and f.id == "set":
                    return X("alias(%s)" % x.by_ref(), x.ty)
            if f.id == "set" and not n.args:
                return X("StdSet::new()", "StdSet")
            if f.id == "next" and len(n.args) == 1:
                x = self.ex(n.args[0])
                bd = self.unit.bindings.cls.get(x.ty, {}).get("__next__")
                if bd:
                    return self.call_bound(bd, x.code, [], n)
            if f.id in self.unit.pyclasses and f.id in self.unit.pymod.classes:
                return self.construct(f.id, n)
            if f.id in self.unit.bindings.fns:
                return self.call_fn(f.id, n)
            self.bad(n, f.id)
        if isinstance(f, ast.Attribute):
            if isinstance(f.value, ast.Name) and f.value.id == "np":
                return self.numpy(f.attr, n)
            if isinstance(f.value, ast.Name) and f.value.id not in self.vars:
                # Class.method(self, ...)
                if n.args and isinstance(n.args[0], ast.Name) and n.args[0].id == "self" and f.value.id in self.unit.pymod.mro(self.cls):
                    if f.value.id in self.unit.pymod.classes:
                        self.bad(n, "call of a base class")
                    return self.call_base(self.vars["self"], f.attr, n, n.args[1:])
                self.bad(n)
            if isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == "super":
                mro = self.unit.pymod.mro(self.owner)[1:]
                if mro and mro[0] not in self.unit.pymod.classes:
                    return self.call_base(self.vars["self"], f.attr, n, n.args)
                self.bad(n, "super")
            x = self.ex(f.value)
            if x.ty in self.unit.pyclasses:
                if f.attr in self.unit.pyclasses[x.ty]:
                    return self.call_value(self.ex(f), n)
                hit = self.unit.pymod.find(x.ty, f.attr)
                if hit:
                    callee = self.unit.pyspec(x.ty, f.attr)
                    args = self.args(n, [a.arg for a in hit[1].args.args][1:], [p.split(":", 1)[1].strip() for p in callee.params[1:]])
                    return self.result("%s.%s(%s)" % (x.code, f.attr, ", ".join(args)), callee.rett)
                return self.call_base(x, f.attr, n, n.args)
            bd = self.unit.bindings.cls.get(x.ty, {}).get(f.attr)
            if bd:
                return self.call_bound(bd, x.code, n.args, n)
            if x.ty == "StdSet" and f.attr == "intersection" and len(n.args) == 1:
                return self.ex_BinOp(ast.copy_location(ast.BinOp(f.value, ast.BitAnd(), n.args[0]), n), want)
            if f.attr in ("add", "append") and isinstance(f.value, ast.Name) and f.value.id not in self.aliased and len(n.args) == 1:
                y = self.ex(n.args[0])
                if x.ty == "StdSet" and f.attr == "add":
                    return X("%s.insert(%s)" % (x.code, y.value()), "()")
                if x.ty == "Vec<%s>" % y.ty and f.attr == "append":
                    return X("vec_push(&mut %s, %s)" % (x.code, y.value()), "()")
            self.bad(n, f.attr)
        self.bad(n)

    def numpy(self, name, n):
        if len(n.args) < 1:
            self.bad(n)
        x = self.ex(n.args[0])
        if x.ty != "PyObj":
            self.bad(n)
        kw = {k.arg: k.value for k in n.keywords}

        def is64(v):
            return isinstance(v, ast.Attribute) and v.attr == "float64" or isinstance(v, ast.Name) and v.id == "float" or isinstance(v, ast.Constant) and v.value in ("float64", "double", "d", "f8")
        if name == "float64" and not kw and len(n.args) == 1:
            return X("np_float64(%s)?" % x.by_ref(), "PyObj")
        if name in ("array", "ascontiguousarray"):
            d = kw.pop("dtype", n.args[1] if len(n.args) > 1 else None)
            o = kw.pop("order", ast.Constant("C") if name == "ascontiguousarray" else None)
            if d is not None and is64(d) and isinstance(o, ast.Constant) and o.value == "C" and not kw and len(n.args) <= 2 and name == "array":
                return X("np_array_c(%s)?" % x.by_ref(), "PyObj")
        self.bad(n, "numpy." + name)

    def args(self, n, names, types):
        """Arguments of a call by position and by name"""
        got = {}
        for nm, a in zip(names, n.args):
            got[nm] = a
        if len(n.args) > len(names):
            self.bad(n, "too many arguments")
        for k in n.keywords:
            if k.arg not in names or k.arg in got:
                self.bad(n, "argument")
            got[k.arg] = k.value
        if len(got) != len(names):
            self.bad(n, "default arguments")
        out = []
        for nm, t in zip(names, types):
            x = self.ex(got[nm], t)
            out.append(self.fit(x if x.place or is_copy(x.ty) else self.hold(x), t))
        return out

    def result(self, code, rett):
        if rett.startswith("Result<"):
            return X(self.tryc(code), rett[7:-10].strip())
        return X(code, rett)

    def tryc(self, code):
        if not self.throws:
            self.bad(self.node, "may raise, the contract says it does not")
        return code + "?"

    def inline(self, l, n):
        if n.keywords or len(n.args) != len(l.args.args) or l.args.defaults:
            self.bad(n)
        keep = {}
        for a, v in zip(l.args.args, n.args):
            x = self.ex(v)
            x = x if x.place and re.match(r"^[\w.]+$", x.code) else self.hold(x)
            keep[a.arg] = self.vars.get(a.arg)
            self.vars[a.arg] = x
        r = self.ex(l.body)
        for k, v in keep.items():
            if v is None:
                del self.vars[k]
            else:
                self.vars[k] = v
        return r

    def call_value(self, x, n):
        if x.ty == "Wrapper" and len(n.args) == 1:
            a = self.hold(self.ex(n.args[0]))
            m = re.search(r"impl Wrapper \{\s*pub fn call\(&self, x: \S.*?\) -> \(r: (.*)\)$", "\n".join(t for _, t in self.unit.libs), re.M)
            return self.result("%s.call(&%s)" % (x.code, a.code), m.group(1))
        self.bad(n, "call of a " + x.ty)

    def construct(self, cls, n):
        callee = self.unit.pyspec(cls, "__init__")
        hit = self.unit.pymod.find(cls, "__init__")
        names = [a.arg for a in hit[1].args.args][1:]
        if n.keywords or len(n.args) != len(names):
            self.bad(n)
        out = []
        for a, p in zip(n.args, callee.params):
            t = p.split(":", 1)[1].strip()
            if isinstance(a, ast.Lambda):
                if t != "Wrapper":
                    self.bad(n, "function value")
                out.append(self.wrapper(a))
            else:
                out.append(self.hold(self.ex(a, t)).value())
        return self.result("%s::__init__(%s)" % (cls, ", ".join(out)), callee.rett)

    def wrapper(self, l):
        """A function value: which one, and the object it goes with"""
        return "Wrapper::%s(alias(&*self))" % self.kind_of(l)

    def call_base(self, x, name, n, args):
        base = self.unit.pyclasses[x.ty].get("base")
        bd = self.unit.bindings.cls.get(base, {}).get(name)
        if bd is None:
            self.bad(n, name)
        return self.call_bound(bd, x.code + ".base", args, n)

    def call_bound(self, bd, recv, args, n):
        prog = self.unit.prog
        names = bd.args
        got = dict(zip(names, args)) if bd.kind != "ctor" else dict(zip([p for p in bd.args if p != bd.args[0]], args))
        want = names if bd.kind != "ctor" else bd.args[1:]
        for k in n.keywords:
            if k.arg not in want or k.arg in got:
                self.bad(n, "argument")
            got[k.arg] = k.value
        if len(args) > len(want) or set(got) != set(want):
            self.bad(n, "arguments")
        if bd.kind == "fn":
            f = self.cpp(bd.cls + "::" + bd.target)
            ps, rt, sh = E.signature(f, self.unit.specs)
            ts = [p.split(":", 1)[1].strip() for p in ps[1:]]
            if len(ts) != len(want):
                self.bad(n, "names of arguments")
            a = [self.fit(self.ex(got[k], t), t) for k, t in zip(want, ts)]
            return self.result("%s.%s(%s)" % (recv, f.rust_name(), ", ".join(a)), rt or "()")
        if bd.kind == "ctor":
            cs = [k for k in self.unit.specs if k.startswith(bd.target + "::new")]
            if len(cs) != 1:
                self.bad(n, "constructor of " + bd.target)
            f = self.cpp(cs[0])
            ps, rt, sh = E.signature(f, self.unit.specs)
            a = []
            for fw, p in zip(bd.forwards, ps):
                t = p.split(":", 1)[1].strip()
                if fw == bd.args[0]:
                    a.append("&" + recv if t.startswith("&") else "PyObj { id: 0 }" if t == "PyObj" else self.bad(n, "receiver"))
                else:
                    a.append(self.fit(self.ex(got[fw], t), t))
            return self.result("%s::%s(%s)" % (f.cls, f.rust_name(), ", ".join(a)), rt)
        self.bad(n, bd.kind)

    def cpp(self, name):
        f = self.unit.prog.by_spec.get(name)
        if f is None:
            raise ExtractionError("no contract for " + name)
        return f

    def call_fn(self, name, n):
        """A function of the extension module, by the number of its arguments"""
        if any(isinstance(a, ast.Starred) for a in n.args):
            if len(n.args) != 1 or n.keywords:
                self.bad(n)
            x = self.ex(n.args[0].value)
            if x.ty != "Vec<Val>":
                self.bad(n)
            return self.result("bound%s(&mut self.base, %s)" % (name, x.by_ref()), "Result<bool, CmError>")
        bs = [b for b in self.unit.bindings.fns[name] if b.kind == "fn" and len(b.args) == len(n.args) + len(n.keywords)]
        if len(bs) != 1:
            self.bad(n, "%d functions %s of that many arguments" % (len(bs), name))
        f = self.cpp(bs[0].target)
        ps, rt, sh = E.signature(f, self.unit.specs)
        got = dict(zip(bs[0].args, n.args))
        for k in n.keywords:
            got[k.arg] = k.value
        a = []
        for nm, p in zip(bs[0].args, ps):
            t = p.split(":", 1)[1].strip()
            x = self.ex(got[nm], t)
            if x.ty == self.cls and t in ("&mut pygraph", "&pygraph"):
                a.append("%sself.base" % t[:-7])
            else:
                a.append(self.fit(x, t))
        return self.result("%s(%s)" % (f.rust_name(), ", ".join(a)), rt)
