"""Mechanical translation of the repository's C++ functions to Verus Rust.

The translation is driven by the clang AST of /repo's current sources and is
redone on every run.  It is a statement-by-statement rendering: control flow,
arithmetic, memory accesses and calls are kept; what it drops is listed in
DROPPED below and in DESIGN.md.

Contracts, loop invariants and proof hints come from spec files (see specs.py)
and are attached by function name, loop ordinal and anchor.
"""
import copy
import re
from cppast import ExtractionError, line_of, file_of, qtype, body_of, params_of

DROPPED = [
    "output to std::cout/std::cerr/stringstream",
    "std::vector::reserve (capacity only)",
    "std::chrono time points (a monotone clock with a ghost reading)",
    "virtual dispatch, access control, const-ness",
    "text of exception messages",
]

REGION_FIELDS = {("graph", "edge_bits"), ("nwgraph", "edge_bits"), ("CliqueEnumerator", "memory"), ("NWCliqueEnumerator", "memory")}
REGION_OWNERS = ("graph", "nwgraph")
RUST_KW = {"loop", "type", "match", "fn", "in", "ref", "move", "use", "mod", "impl", "self", "where",
           "final", "old", "proof", "ghost", "spec", "exec", "choose", "assert", "assume", "forall", "exists", "box", "priv", "ret"}


# ------------------------------------------------------------------ types
def split_targs(s):
    out, depth, cur = [], 0, ""
    for ch in s:
        if ch in "<(":
            depth += 1
        elif ch in ">)":
            depth -= 1
        if ch == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


INTS = {
    "unsigned long": "u64", "u64": "u64", "uint64_t": "u64", "size_t": "u64", "std::size_t": "u64",
    "unsigned long long": "u64", "size_type": "u64", "std::uint64_t": "u64",
    "unsigned int": "u32", "unsigned": "u32", "uint32_t": "u32",
    "int": "i32", "long": "i64", "ssize_t": "i64", "long long": "i64", "signed char": "i8", "int8_t": "i8", "unsigned char": "u8",
    "short": "i16", "pybind11::ssize_t": "i64",
}


class T:
    """A C++ type, reduced to what the translation needs."""

    def __init__(self, k, *a, const=False):
        self.k, self.a, self.const = k, a, const

    def __repr__(self):
        return "%s%s%s" % ("const " if self.const else "", self.k, list(self.a) if self.a else "")

    def strip(self):
        t = self
        while t.k in ("ref", "rref"):
            t = t.a[0]
        return t


# sets of points: objects and arrays
ARRAY = r"(?:Eigen::)?Ref<(?:DoubleMatrixR|(?:Eigen::)?Matrix<double, -1, -1, 1(?:, -1, -1)?>)(?:, 0, (?:Eigen::)?OuterStride<-1>)?>"


def same_sets(s):
    """The type with either kind of set written the same: functions for objects and for arrays have one contract."""
    return re.sub(ARRAY + r"|\b(?:pybind11|py)::object\b", "object", s)


def parse_type(s):
    s = s.strip()
    s = re.sub(r"\b(struct|class|enum|typename)\s+", "", s)
    if s.endswith("&&"):
        return T("rref", parse_type(s[:-2]))
    if s.endswith("&"):
        return T("ref", parse_type(s[:-1]))
    const = False
    while True:
        if s.endswith(" const"):
            s = s[:-6].strip()
            const = True
        elif s.endswith("*const"):
            s = s[:-5].strip()
        elif s.startswith("const ") and not s.rstrip().endswith("*"):
            s = s[6:].strip()
            const = True
        else:
            break
    if s in ("const char *", "char const *", "const char*"):
        return T("str", const=True)
    if s.endswith("*"):
        return T("ptr", parse_type(s[:-1]), const=const)
    if s in INTS:
        return T(INTS[s], const=const)
    if s in ("bool", "_Bool"):
        return T("bool", const=const)
    if s in ("double", "float", "long double"):
        return T("dbl", const=const)
    if s == "void":
        return T("void")
    m = re.match(r"^(.*?)\s*\[(\d+)\]$", s)
    if m:
        return T("arr", parse_type(m.group(1)), int(m.group(2)), const=const)
    m = re.match(r"^(?:std::)?(?:__cxx11::)?(?:_GLIBCXX_STD_C::)?vector<(.*)>$", s)
    if m:
        return T("vec", parse_type(split_targs(m.group(1))[0]), const=const)
    m = re.match(r"^(?:std::)?pair<(.*)>$", s)
    if m:
        a = split_targs(m.group(1))
        return T("pair", parse_type(a[0]), parse_type(a[1]), const=const)
    m = re.match(r"^(?:std::)?set<(.*)>$", s)
    if m:
        return T("set", parse_type(split_targs(m.group(1))[0]), const=const)
    m = re.match(r"^(?:std::)?function<(.*)>$", s)
    if m:
        r, a = re.match(r"^(.*?)\s*\((.*)\)$", m.group(1)).groups()
        return T("func", parse_type(r), tuple(parse_type(x) for x in split_targs(a)), const=const)
    m = re.match(r"^(?:std::)?shared_ptr<(.*)>$", s)
    if m:
        return T("shared", parse_type(m.group(1)), const=const)
    m = re.match(r"^(?:std::)?(?:basic_)?(i|o)fstream(?:<char(?:, .*)?>)?$", s)
    if m:
        return T(m.group(1) + "file", const=const)
    if "basic_string" in s or s in ("std::string", "string"):
        return T("str", const=const)
    if "chrono" in s or "time_point" in s:
        return T("time", const=const)
    if s in ("pybind11::object", "py::object", "object") or re.match("^%s$" % ARRAY, s):
        return T("pyobj", const=const)
    if re.match(r"^(?:Eigen::)?(?:MatrixBase<)?(?:Eigen::)?(?:Block|CwiseBinaryOp)<", s):
        return T("row", const=const)
    if s == "pybind11::array":
        return T("ndarray", T("void"), const=const)
    m = re.match(r"^(?:.*::)?(?:core::)?ndarray<(.*)>$", s) or re.match(r"^(?:pybind11::)?array_t<(.*)>$", s)
    if m:
        return T("ndarray", parse_type(split_targs(m.group(1))[0]), const=const)
    m = re.match(r"^(?:pybind11::detail::)?unchecked_(mutable_)?reference<(.*)>$", s)
    if m:
        return T("ndview", parse_type(split_targs(m.group(2))[0]), bool(m.group(1)), const=const)
    m = re.match(r"^(?:[A-Za-z_0-9]+::)*BFResult$", s)
    if m:
        return T("i8", const=const)
    m = re.match(r"^(?:cliquematch::)?(?:detail::|core::|ext::)*([A-Za-z_0-9:]+)$", s)
    if m:
        return T("cls", m.group(1).replace("::", "_"), const=const)
    m = re.match(r"^(?:cliquematch::)?(?:ext::)?(pair_dist|relset)<.*>$", s)
    if m:
        return T("cls", m.group(1), const=const)
    return T("other", s, const=const)


ABBR = {"u64": "u", "bool": "b", "dbl": "d", "i32": "i", "u32": "u32", "i8": "e", "i64": "l"}


def abbr(t):
    t = t.strip()
    if t.k in ABBR:
        return ABBR[t.k]
    if t.k == "ptr":
        return ("c" if t.a[0].const else "") + "p"
    if t.k == "vec":
        return "v"
    if t.k == "pair":
        return "pair"
    if t.k == "cls":
        return t.a[0]
    return t.k


class Func:
    def __init__(self, prog, tu, qual, node):
        self.prog, self.tu, self.qual, self.node = prog, tu, qual, node
        self.kind = node["kind"]
        parts = qual.split("::")
        self.name = parts[-1]
        self.is_ctor = self.kind == "CXXConstructorDecl"
        self.cls = None
        if self.kind != "FunctionDecl":
            self.cls = prog.cls_name("::".join(parts[:-1]))
        self.params = params_of(node)
        self.ptypes = [parse_type(qtype(p)) for p in self.params]
        self.const_this = bool(re.search(r"\)\s*const\b", node["type"]["qualType"]))
        rt = node["type"]["qualType"].split("(")[0].strip()
        m = re.match(r"^auto \(.*\) -> (.*)$", node["type"]["qualType"])
        if m:
            rt = m.group(1)
        full = node["type"].get("desugaredQualType", node["type"]["qualType"])
        self.ret = T("void") if self.is_ctor else parse_type(self._ret_type())
        self.is_static_free = node.get("storageClass") == "static" and self.kind == "FunctionDecl"
        self.is_static_method = node.get("storageClass") == "static" and self.kind == "CXXMethodDecl"
        self.file, self.line = file_of(node), line_of(node)
        # analysis results
        self.mut_params = set()
        self.mut_this = False
        self.mem = None           # None / "r" / "w"
        self.throws = False
        self.callees = set()
        self.recursive = False

    def _ret_type(self):
        s = self.node["type"].get("desugaredQualType", self.node["type"]["qualType"])
        depth = 0
        for i, ch in enumerate(s):
            if ch == "<":
                depth += 1
            elif ch == ">":
                depth -= 1
            elif ch == "(" and depth == 0:
                return s[:i].strip()
        return s

    @property
    def key(self):
        return self.qual + "|" + same_sets(self.node["type"]["qualType"])

    def sig_abbr(self):
        return "_".join(abbr(t) for t in self.ptypes)

    def base_name(self):
        n = self.name
        ops = {"operator[]": "op_index", "operator&=": "op_and_assign", "operator|=": "op_or_assign",
               "operator^=": "op_xor_assign", "operator-=": "op_sub_assign", "operator<": "op_lt",
               "operator>": "op_gt", "operator()": "op_call", "operator=": "op_assign", "operator==": "op_eq"}
        if self.is_ctor:
            return "new"
        if self.cls is None and self.prog.namesake(self):
            n = "core_" + n
        return ops.get(n, n)

    def rust_name(self):
        n = self.base_name()
        if self.is_ctor:
            return "new" + ("_" + self.sig_abbr() if self.params else "")
        if self.cross:
            return n + "_x"
        if self.prog.overloaded(self):
            a = self.sig_abbr()
            return n + "_" + (a or "0")
        if n in RUST_KW:
            n += "_"
        return n

    def spec_name(self):
        return (self.cls + "::" if self.cls else "") + self.rust_name()

    def region_provider(self):
        """Expression denoting the memory region graphBits pointers refer to."""
        if self.cls in REGION_OWNERS or self.own_region():
            return "self"
        for p, t in zip(self.params, self.ptypes):
            s = t.strip()
            if s.k == "cls" and s.a[0] in REGION_OWNERS:
                return p["name"]
        return None

    def own_region(self):
        """Member that holds the search memory of a class that does not use the graph's."""
        for c, m in REGION_FIELDS:
            if c == self.cls and c not in REGION_OWNERS:
                return m
        return None

    def graph_params(self):
        return [p for p, t in zip(self.params, self.ptypes) if t.strip().k == "cls" and t.strip().a[0] in REGION_OWNERS]

    cross = False

    def two_regions(self):
        """The same function with its arguments in another region (mem2)."""
        f = copy.copy(self)
        f.cross = True
        return f


class Program:
    def __init__(self, tus, specs, namespaces=("cliquematch",)):
        self.tus = tus
        self.specs = specs
        self.funcs = {}
        self.records = {}
        self.consts = {}
        self._over = None
        self._names = {}
        for tu in tus:
            for q, node in tu.records.items():
                cn = self.cls_name(q)
                if cn not in self.records:
                    self.records[cn] = (tu, node)
        for tu in tus:
            for q, node in tu.funcs:
                self._names.setdefault(self.short(q), set()).add(same_sets(node["type"]["qualType"]))
                if body_of(node) is None or node["kind"] == "CXXDestructorDecl":
                    continue
                if node.get("isImplicit") or node.get("explicitlyDefaulted"):
                    continue
                f = Func(self, tu, q, node)
                k = self.fkey(tu, f)
                if k not in self.funcs:
                    self.funcs[k] = f
        self.by_spec = {}
        for f in self.funcs.values():
            self.by_spec.setdefault(f.spec_name(), f)
        self.analyse()
        for n in specs:
            if n.endswith("_x") and n not in self.by_spec and n[:-2] in self.by_spec:
                self.by_spec[n] = self.by_spec[n[:-2]].two_regions()

    def is_inline(self, f):
        return f.spec_name() not in self.specs

    def fkey(self, tu, f):
        return (tu.tu + "::" if f.is_static_free else "") + f.key

    @staticmethod
    def short(q):
        return q

    @staticmethod
    def cls_name(q):
        parts = q.split("::")
        parts = [p for p in parts if p not in ("cliquematch", "detail", "core", "ext", "")]
        return "_".join(parts)

    def namesake(self, f):
        """a free function of another namespace wraps one of the detail namespace"""
        parts = f.qual.split("::")
        return "detail" not in parts and any(q != f.qual and q.endswith("detail::" + f.name) for q in self._names)

    def overloaded(self, f):
        names = self._names.get(f.qual, set())
        return len(names) > 1

    def find(self, tu, decl_id, ref=None):
        """Resolve a referenced function declaration to its definition."""
        d = tu.by_id.get(decl_id)
        if d is None or "_qual" not in d:
            return None
        k = d["_qual"] + "|" + same_sets(d["type"]["qualType"])
        if tu.tu + "::" + k in self.funcs:
            return self.funcs[tu.tu + "::" + k]
        return self.funcs.get(k)

    # -------------------------------------------------------- analysis
    def analyse(self):
        for f in self.funcs.values():
            f.info = BodyInfo(f)
        changed = True
        while changed:
            changed = False
            for f in self.funcs.values():
                if f.info.update():
                    changed = True
        for f in self.funcs.values():
            seen, todo = set(), list(f.callees)
            while todo:
                c = todo.pop()
                if c in seen:
                    continue
                seen.add(c)
                todo += list(self.funcs[c].callees)
            f.recursive = self.fkey(f.tu, f) in seen


STRIP = ("ImplicitCastExpr", "ParenExpr", "CXXStaticCastExpr", "CStyleCastExpr", "CXXFunctionalCastExpr",
         "MaterializeTemporaryExpr", "ExprWithCleanups", "CXXBindTemporaryExpr", "ConstantExpr", "SubstNonTypeTemplateParmExpr")


def strip(n):
    while n.get("kind") in STRIP:
        inner = [c for c in n.get("inner", []) if c]
        if not inner:
            return n
        n = inner[-1] if n["kind"] != "ConstantExpr" else inner[0]
    return n


def inner(n):
    return [c for c in n.get("inner", []) if c is not None]


def is_ptr_type(n):
    t = parse_type(qtype(n))
    return t.k == "ptr" and t.a[0].k == "u64"


class BodyInfo:
    """Which parameters, members and memory a function reads and writes."""

    def __init__(self, f):
        self.f = f
        self.alias = {}
        self.body = body_of(f.node)
        self.inits = [c for c in inner(f.node) if c["kind"] == "CXXCtorInitializer"]
        self._collect_alias(self.body)

    def _collect_alias(self, n):
        if n.get("kind") == "VarDecl":
            t = parse_type(qtype(n))
            if t.k == "ref" and inner(n):
                self.alias[n["id"]] = inner(n)[-1]
            if t.k == "ndview" and inner(n):
                c = strip(inner(n)[-1])
                while c.get("kind") == "CXXConstructExpr" and inner(c):
                    c = strip(inner(c)[0])
                if c.get("kind") == "CXXMemberCallExpr":
                    self.alias[n["id"]] = inner(strip(inner(c)[0]))[0]
        for c in inner(n):
            self._collect_alias(c)

    def root(self, n):
        """('this',) / ('decl', id) / ('ptr',) / None: what an lvalue is part of."""
        n = strip(n)
        k = n.get("kind")
        if k == "CXXThisExpr":
            return ("this",)
        if k == "DeclRefExpr":
            rid = n["referencedDecl"]["id"]
            if rid in self.alias:
                return self.root(self.alias[rid])
            return ("decl", rid)
        if k == "MemberExpr":
            return self.root(inner(n)[0])
        if k == "ArraySubscriptExpr":
            b = inner(n)[0]
            sb = strip(b)
            if is_ptr_type(sb) or (is_ptr_type(b) and parse_type(qtype(sb)).k != "arr"):
                if self.is_param_array(sb):
                    return self.root(sb)
                return ("ptr", parse_type(qtype(b)).a[0].const)
            return self.root(b)
        if k == "CXXOperatorCallExpr":
            a = inner(n)
            return self.root(a[1])
        if k == "CXXMemberCallExpr":
            return self.root(inner(inner(n)[0])[0]) if inner(inner(n)[0]) else ("this",)
        if k == "UnaryOperator" and n.get("opcode") == "*":
            return self.root(inner(n)[0])
        if k == "CallExpr":
            callee = strip(inner(n)[0])
            nm = callee.get("referencedDecl", {}).get("name")
            if nm in ("move", "forward"):
                return self.root(inner(n)[1])
        return None

    def is_param_array(self, n):
        """u64* parameters of free functions are whole arrays (utils.cpp)."""
        n = strip(n)
        if n.get("kind") != "DeclRefExpr":
            return False
        return self.f.cls is None and self.f.region_provider() is None

    def update(self):
        f = self.f
        before = (frozenset(f.mut_params), f.mut_this, f.mem, f.throws, frozenset(f.callees))
        for i in self.inits:
            self.walk(i)
        self.walk(self.body)
        return before != (frozenset(f.mut_params), f.mut_this, f.mem, f.throws, frozenset(f.callees))

    def mutated(self, n):
        r = self.root(n)
        if r is None:
            return
        if r[0] == "this":
            self.f.mut_this = True
        elif r[0] == "decl":
            if any(p["id"] == r[1] for p in self.f.params):
                self.f.mut_params.add(r[1])
        elif r[0] == "ptr":
            self.use_mem("w")

    def use_mem(self, m, obj=None):
        if self.f.own_region() and obj is not None:
            r = self.root(obj)
            if r and r[0] == "decl" and any(p["id"] == r[1] for p in self.f.graph_params()):
                if m == "w":
                    self.f.mut_params.add(r[1])
                return
        if self.f.mem != "w":
            self.f.mem = m
        if self.f.mem == "w":
            p = self.f.region_provider()
            if p == "self":
                self.f.mut_this = True
            elif p:
                for q in self.f.params:
                    if q["name"] == p:
                        self.f.mut_params.add(q["id"])

    def call(self, n, target, obj, args):
        f = self.f
        if target is None:
            return
        f.callees.add(f.prog.fkey(target.tu, target))
        if target.throws:
            f.throws = True
        if obj is not None and target.mut_this:
            self.mutated(obj)
        for p, t, a in zip(target.params, target.ptypes, args):
            if p["id"] in target.mut_params and (t.k in ("ref",) or (t.k == "ptr" and target.cls is None)):
                self.mutated(a)
        if target.mem and target.region_provider() is None:
            self.use_mem(target.mem, obj)

    def walk(self, n):
        f = self.f
        k = n.get("kind")
        ch = inner(n)
        if k == "LambdaExpr":
            # analysed where it is inlined; collect the body conservatively
            for c in ch:
                if c.get("kind") == "CompoundStmt":
                    self._collect_alias(c)
                    self.walk(c)
            return
        if k in ("BinaryOperator", "CompoundAssignOperator"):
            op = n.get("opcode", "")
            if op.endswith("=") and op not in ("==", "!=", "<=", ">="):
                self.mutated(ch[0])
        elif k == "UnaryOperator" and n.get("opcode") in ("++", "--"):
            self.mutated(ch[0])
        elif k == "ArraySubscriptExpr":
            r = self.root(n)
            if r and r[0] == "ptr" and not r[1]:
                self.use_mem("r")
        elif k == "CXXThrowExpr":
            f.throws = True
        elif k == "CXXMemberCallExpr":
            m = strip(ch[0])
            if m.get("kind") == "MemberExpr":
                obj = inner(m)[0] if inner(m) else None
                target = f.prog.find(f.tu, m.get("referencedMemberDecl"))
                if target is not None:
                    self.call(n, target, obj, ch[1:])
                else:
                    if m.get("name") in ("unchecked", "mutable_unchecked"):
                        f.throws = True         # wrong number of dimensions
                    if m.get("name") in ("push_back", "pop_back", "clear", "resize", "swap", "insert", "erase", "emplace_back", "assign") and obj is not None:
                        self.mutated(obj)
                    if m.get("name") == "swap" and len(ch) > 1:
                        self.mutated(ch[1])
        elif k == "CXXOperatorCallExpr":
            callee = strip(ch[0])
            rd = callee.get("referencedDecl", {})
            target = f.prog.find(f.tu, rd.get("id"))
            if target is not None:
                if target.cls:
                    self.call(n, target, ch[1], ch[2:])
                else:
                    self.call(n, target, None, ch[1:])
            elif rd.get("name") == "operator>>" and "stream" in qtype(n):
                self.mutated(ch[2])
            elif rd.get("name") == "operator()" and self.called_back(ch[1]):
                f.throws = True
            elif rd.get("name") in ("operator=", "operator+=", "operator-=", "operator|=", "operator&=", "operator^="):
                self.mutated(ch[1])
        elif k == "CallExpr":
            callee = strip(ch[0])
            rd = callee.get("referencedDecl", {})
            target = f.prog.find(f.tu, rd.get("id"))
            if target is not None:
                self.call(n, target, None, ch[1:])
            else:
                nm = rd.get("name")
                if nm == "make_shared":
                    t = parse_type(qtype(n)).strip()
                    for g in f.prog.funcs.values():
                        if t.k == "shared" and g.is_ctor and g.cls == t.a[0].a[0] and len(g.params) == len(ch) - 1:
                            self.call(n, g, None, ch[1:])
                elif nm == "now" and f.cls:
                    f.mut_this = True       # reading the clock moves it on
                elif nm == "swap":
                    self.mutated(ch[1])
                    self.mutated(ch[2])
                elif nm in ("copy", "fill", "copy_n", "fill_n"):
                    self.use_mem("w")
                elif nm in ("sort",):
                    self.mutated(ch[1])
        elif k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            target = self.ctor_target(n)
            if target is not None:
                self.call(n, target, None, ch)
        for c in ch:
            self.walk(c)

    def called_back(self, n):
        """A function object that is not a lambda of this program."""
        n = strip(n)
        if parse_type(qtype(n)).strip().k != "func":
            return False
        return n.get("kind") == "MemberExpr" or not self.f.prog.is_inline(self.f)

    def ctor_target(self, n):
        return ctor_target(self.f, n)


def ctor_target(f, n):
    t = parse_type(qtype(n))
    if t.k == "vec" or t.k != "cls":
        return None
    want = same_sets(n.get("ctorType", {}).get("qualType", ""))
    for g in f.prog.funcs.values():
        if g.is_ctor and g.cls == t.a[0] and same_sets(g.node["type"]["qualType"]) == want:
            return g
    return None
