"""Rendering of one C++ function body as Verus Rust (see translate.py)."""
import json
import re
from cppast import ExtractionError, line_of, file_of, qtype, body_of, params_of
from translate import (T, parse_type, strip, inner, is_ptr_type, ctor_target, REGION_FIELDS, REGION_OWNERS,
                       RUST_KW, STRIP)


def rust_type(t, prog=None):
    k = t.k
    if k in ("u64", "u32", "i32", "i64", "i8", "u8", "i16", "bool"):
        return k
    if k == "dbl":
        return "Dbl"
    if k == "time":
        return "Clock"
    if k == "vec":
        return "Vec<%s>" % rust_type(t.a[0])
    if k == "pair":
        return "Pair<%s, %s>" % (rust_type(t.a[0]), rust_type(t.a[1]))
    if k == "set":
        return "StdSet"
    if k == "arr":
        return "[%s; %d]" % (rust_type(t.a[0]), t.a[1])
    if k == "cls":
        return t.a[0]
    if k == "ptr" and t.a[0].k == "u64" and not t.a[0].const:
        return "Ptr"
    if k == "ptr" and t.a[0].k == "u64" and t.a[0].const:
        return "CPtr"
    if k == "str":
        return "Str"
    if k in ("ifile", "ofile"):
        return {"i": "IFile", "o": "OFile"}[k[0]]
    if k == "shared":
        return "Vec<%s>" % rust_type(t.a[0])        # empty: null
    if k == "pyobj":
        return "PyObj"
    if k == "row":
        return "Row"
    if k == "func":
        return func_type(t)
    if k == "ndarray":
        return "NdArray<%s>" % rust_type(t.a[0])
    if k == "ndview":
        return "NdArray<%s>" % rust_type(t.a[0])
    if k in ("ref", "rref"):
        return rust_type(t.a[0])
    raise ExtractionError("type not translated: %r" % (t,))


def func_type(t):
    """Function objects given by the caller of the library: distances and conditions."""
    sig = (t.a[0].k,) + tuple(x.strip().k for x in t.a[1])
    r = {("dbl", "pyobj", "u64", "u64"): "Metric", ("bool", "pyobj", "u64", "u64", "pyobj", "u64", "u64"): "Cond"}.get(sig)
    if r is None:
        raise ExtractionError("function object %r" % (t,))
    return r


def arb(t):
    k = t.k
    if k in ("u64", "u32", "i32", "i64", "i16", "i8", "bool"):
        return "arb_%s()" % k
    if k == "dbl":
        return "arb_dbl()"
    if k == "time":
        return "clock_now()"
    if k == "cls":
        return "arb_%s()" % t.a[0]
    if k == "ptr":
        return "arb_ptr()"
    if k == "vec":
        return "Vec::new()"
    if k == "pair":
        return "Pair { first: %s, second: %s }" % (arb(t.a[0]), arb(t.a[1]))
    if k == "set":
        return "StdSet::new()"
    if k == "shared":
        return "Vec::new()"
    if k == "arr":
        return "[%s; %d]" % (arb(t.a[0]), t.a[1])
    raise ExtractionError("no default value for %r" % (t,))


def ident(s):
    return s + "_" if s in RUST_KW else s


INT_KINDS = ("u64", "u32", "i32", "i64", "i8", "u8", "i16")


class Emitter:
    def __init__(self, f, parent=None, env=None, this=None):
        self.f = f
        self.prog = f.prog
        self.parent = parent
        self.env = env if env is not None else {}
        self.this = this or ("this_" if f.is_ctor else "self")
        if parent is None:
            self.counter = [0]
            self.loopno = [0]
            self.locals = {}
        else:
            self.counter = parent.counter
            self.loopno = parent.loopno
            self.locals = parent.locals
        self.loops = []
        self.lines = []
        self.ind = 1
        self.cur_line = f.line
        self.inlined = parent.inlined if parent else []
        self.lambda_env = {}
        self.lambdas = {}
        self.wrapping = parent.wrapping if parent else False
        self.names = {ident(p["name"]) for p in f.params if p.get("name")} if parent is None else set()
        self.renamed = set()

    # ------------------------------------------------------------ helpers
    def fresh(self, p="t"):
        self.counter[0] += 1
        return "%s_%d_" % (p, self.counter[0])

    def emit(self, s):
        self.lines.append(("    " * self.ind + s, self.cur_line))

    def fail(self, n, why):
        raise ExtractionError("%s:%s: %s (%s)" % (file_of(n) or self.f.file, line_of(n), why, n.get("kind")))

    def region(self, pl=None):
        p = self.f.region_provider()
        if self.f.own_region():
            for q in self.f.graph_params():
                if pl is not None and pl.startswith(self.name_of(q) + "."):
                    return self.name_of(q) + ".edge_bits"
            return self.this + "." + self.f.own_region()
        if p == "self":
            return self.this + ".edge_bits"
        if p:
            for q in self.f.params:
                if q["name"] == p:
                    return self.name_of(q) + ".edge_bits"
        if self.parent is not None:
            return self.parent.region(pl)
        return "mem"

    def ptr_region(self, n):
        """Region a pointer expression of a two-region function points into."""
        if self.f.cross and any(self.refers_to(n, p) for p in self.f.params):
            return "mem2"
        return self.region()

    def refers_to(self, n, p):
        return n.get("referencedDecl", {}).get("id") == p["id"] or any(self.refers_to(c, p) for c in inner(n))

    def region_arg(self, target, pl=None):
        r = self.region(pl)
        if r == "mem":
            return "mem"
        return ("&mut " if target.mem == "w" else "&") + r

    def name_of(self, decl):
        if decl["id"] in self.env:
            return self.env[decl["id"]]
        return ident(decl.get("name", "_"))

    def declare(self, v):
        """Name for a local: never one that a caller it is inlined into, or an alias, already uses."""
        taken = set()
        e = self.parent
        while e is not None:
            taken |= e.names | e.renamed
            e = e.parent
        for x in self.env.values():
            for y in x if isinstance(x, tuple) else (x,):
                if isinstance(y, str) and y not in self.renamed:
                    taken |= set(re.findall(r"(?<![.\w])[A-Za-z_]\w*", y))
        nm = ident(v["name"])
        while nm in taken:
            nm += "_in"
        if nm != ident(v["name"]):
            self.env[v["id"]] = nm
            self.renamed.add(nm)
        self.names.add(nm)
        return nm

    # ------------------------------------------------------------ places
    def ref_member(self, n):
        """n is a member of this object that is a reference to another one"""
        n = strip(n)
        if n.get("kind") != "MemberExpr" or not self.f.cls:
            return False
        return strip(inner(n)[0]).get("kind") == "CXXThisExpr" and any(m == n["name"] and t.k == "ref" for m, t in all_fields(self.prog, self.f.cls))

    def place(self, n):
        n = strip(n)
        k = n.get("kind")
        ch = inner(n)
        if k == "CXXThisExpr":
            return self.this
        if k == "DeclRefExpr":
            rd = n["referencedDecl"]
            if rd["id"] in self.env:
                v = self.env[rd["id"]]
                if isinstance(v, tuple):
                    self.fail(n, "pointer alias used as a place")
                return v
            nm = ident(rd["name"])
            for p, t in zip(self.f.params, self.f.ptypes):
                if p["id"] == rd["id"] and t.k == "ref" and t.a[0].k in INT_KINDS + ("bool", "dbl") and p["id"] in self.f.mut_params:
                    return "(*%s)" % nm
            return nm
        if k == "MemberExpr":
            if n.get("isArrow"):
                base = self.deref(ch[0])
            else:
                base = self.place(ch[0])
            if parse_type(qtype(n)).strip().k == "shared" and not self.f.is_ctor and self.ref_member(ch[0]):
                self.fail(n, "object reached through two names")
            return base + "." + ident(n["name"])
        if k == "CXXOperatorCallExpr":
            op = strip(ch[0])["referencedDecl"]["name"]
            if op == "operator[]":
                bt = parse_type(qtype(strip(ch[1])))
                if self.is_region(ch[1]):
                    self.fail(n, "reference into a memory region")
                if bt.k in ("vec", "arr"):
                    return "%s[(%s) as usize]" % (self.place(ch[1]), self.rv(ch[2]))
            if op in ("operator*", "operator->"):
                return self.deref(n)
        if k == "ArraySubscriptExpr":
            b = strip(ch[0])
            if self.is_param_array(b):
                return "%s[(%s) as usize]" % (self.array_of(b), self.rv(ch[1]))
            bt = parse_type(qtype(b))
            if bt.k == "arr":
                return "%s[(%s) as usize]" % (self.place(b), self.rv(ch[1]))
        if k == "CXXMemberCallExpr":
            m = strip(ch[0])
            if m.get("name") == "back" and len(ch) == 1:
                v = self.place(inner(m)[0])
                return "%s[(%s.len() - 1) as usize]" % (v, v)
            if m.get("name") == "front" and len(ch) == 1:
                return "%s[0usize]" % self.place(inner(m)[0])
            if m.get("name") == "at" and len(ch) == 2:
                return "%s[(%s) as usize]" % (self.place(inner(m)[0]), self.rv(ch[1]))
        if k == "UnaryOperator" and n.get("opcode") == "*":
            return self.deref(ch[0])
        if k == "CallExpr":
            nm = strip(ch[0]).get("referencedDecl", {}).get("name")
            if nm in ("move", "forward"):
                return self.place(ch[1])
        # an rvalue used where a place is wanted: bind it
        t = self.fresh()
        self.pre.append("let %s = %s;" % (t, self.rv(n)))
        return t

    pre = None

    def deref(self, n):
        n = strip(n)
        if n.get("kind") == "CXXThisExpr":
            return self.this
        if n.get("kind") == "CXXOperatorCallExpr":
            op = strip(inner(n)[0])["referencedDecl"]["name"]
            if op in ("operator->", "operator*"):
                if parse_type(qtype(strip(inner(n)[1]))).strip().k == "shared":
                    return self.place(inner(n)[1]) + "[0usize]"
        if n.get("kind") == "UnaryOperator" and n.get("opcode") == "&":
            return self.place(inner(n)[0])
        t = parse_type(qtype(n))
        self.fail(n, "dereference of %r" % t)

    def is_region(self, n):
        n = strip(n)
        if n.get("kind") != "MemberExpr":
            return False
        owner = None
        d = self.f.tu.by_id.get(n.get("referencedMemberDecl"))
        b = inner(n)[0] if inner(n) else None
        if b is not None:
            t = parse_type(qtype(b))
            if t.k == "ptr":
                t = t.a[0]
            t = t.strip()
            if t.k == "cls":
                owner = t.a[0]
        return (owner, n.get("name")) in REGION_FIELDS

    def is_param_array(self, n):
        n = strip(n)
        if n.get("kind") != "DeclRefExpr":
            return False
        rid = n["referencedDecl"]["id"]
        if isinstance(self.env.get(rid), tuple):
            return True
        if self.f.cls is not None or self.f.region_provider() is not None:
            return False
        t = parse_type(qtype(n))
        if not (t.k == "ptr" and (not t.a[0].const or t.a[0].k == "cls")):
            return False
        return any(p["id"] == rid for p in self.f.params)

    def array_of(self, n):
        n = strip(n)
        rid = n["referencedDecl"]["id"]
        v = self.env.get(rid)
        if isinstance(v, tuple):
            if v[0] == "array":
                return v[1]
            self.fail(n, "write through a conditional pointer")
        return ident(n["referencedDecl"]["name"])

    # ------------------------------------------------------ const pointers
    def cptr(self, n):
        """(vector expression, offset expression) of a const u64*."""
        n = strip(n)
        k = n.get("kind")
        ch = inner(n)
        if k == "DeclRefExpr":
            v = self.env.get(n["referencedDecl"]["id"])
            if isinstance(v, tuple) and v[0] == "cptr":
                return v[1], v[2]
            nm = ident(n["referencedDecl"]["name"])
            return nm, nm + "_off"
        if k == "UnaryOperator" and n.get("opcode") == "&":
            e = strip(ch[0])
            ec = inner(e)
            if e.get("kind") == "CXXOperatorCallExpr":
                v = self.place(ec[1])
                return "&" + v, "addr_of(&%s, %s)" % (v, self.rv(ec[2]))
            if e.get("kind") == "ArraySubscriptExpr":
                b, o = self.cptr(ec[0])
                return b, "(%s + %s)" % (o, self.rv(ec[1]))
        if k == "CXXMemberCallExpr" and strip(ch[0]).get("name") == "data":
            v = inner(strip(ch[0]))[0]
            if self.is_region(v):
                self.fail(n, "const pointer into a region")
            return "&" + self.place(v), "0u64"
        if k == "BinaryOperator" and n.get("opcode") == "+":
            b, o = self.cptr(ch[0])
            return b, "(%s + %s)" % (o, self.rv(ch[1]))
        self.fail(n, "const pointer expression")

    def ptr(self, n):
        """Expression of type Ptr."""
        n = strip(n)
        k = n.get("kind")
        ch = inner(n)
        if k == "UnaryOperator" and n.get("opcode") == "&":
            e = strip(ch[0])
            ec = inner(e)
            if e.get("kind") == "CXXOperatorCallExpr" and self.is_region(ec[1]):
                return "%s.addr_of(%s)" % (self.place(ec[1]), self.rv(ec[2]))
            if e.get("kind") == "ArraySubscriptExpr":
                return "%s.add(%s)" % (self.ptr(ec[0]), self.rv(ec[1]))
            self.fail(n, "address of")
        if k == "CXXMemberCallExpr":
            m = strip(ch[0])
            if m.get("name") == "data" and self.is_region(inner(m)[0]):
                return "%s.data()" % self.place(inner(m)[0])
            return self.rv(n)
        if k == "BinaryOperator" and n.get("opcode") == "+":
            return "%s.add(%s)" % (self.ptr(ch[0]), self.rv(ch[1]))
        if k in ("DeclRefExpr", "MemberExpr"):
            return self.place(n)
        if k == "CXXNullPtrLiteralExpr":
            return "arb_ptr()"
        if k == "CallExpr":
            return self.rv(n)
        self.fail(n, "pointer expression")

    # ----------------------------------------------------------- rvalues
    def ty(self, n):
        return parse_type(qtype(n)).strip()

    def lit(self, n, t):
        s = strip(n)
        neg = False
        if s.get("kind") == "UnaryOperator" and s.get("opcode") == "-":
            neg = True
            s = strip(inner(s)[0])
        if s.get("kind") != "IntegerLiteral":
            return None
        v = int(s["value"])
        if neg:
            v = -v
        if t.k == "u64":
            return "%du64" % (v % 2**64)
        if t.k in INT_KINDS:
            return "%d%s" % (v, t.k) if v >= 0 else "(%d%s)" % (v, t.k)
        if t.k == "dbl":
            return "dbl_of_u64(%du64)" % v if v >= 0 else "dbl_neg(dbl_of_u64(%du64))" % -v
        if t.k == "bool":
            return "true" if v else "false"
        return None

    def rv(self, n):
        k = n.get("kind")
        ch = inner(n)
        m = getattr(self, "rv_" + k, None)
        if m is None:
            self.fail(n, "expression not translated")
        return m(n, ch)

    def rv_ParenExpr(self, n, ch):
        return "(%s)" % self.rv(ch[0])

    def rv_ConstantExpr(self, n, ch):
        return self.rv(ch[0])

    rv_ExprWithCleanups = rv_MaterializeTemporaryExpr = rv_CXXBindTemporaryExpr = rv_ConstantExpr
    rv_SubstNonTypeTemplateParmExpr = rv_ConstantExpr

    def rv_cast(self, n, ch):
        ck = n.get("castKind")
        e = ch[-1]
        if ck in ("LValueToRValue", "NoOp", "FunctionToPointerDecay", "ConstructorConversion", "UserDefinedConversion",
                  "UncheckedDerivedToBase", "DerivedToBase", "FloatingCast"):
            return self.rv(e)
        if ck == "ToVoid":
            s = strip(e)
            if s.get("kind") in ("DeclRefExpr", "IntegerLiteral", "MemberExpr", "CXXThisExpr", "CXXBoolLiteralExpr"):
                return "()"
            return "({ let _ = %s; })" % self.rv(e)
        dst = self.ty(n)
        src = self.ty(e)
        l = self.lit(e, dst) if ck in ("IntegralCast", "IntegralToFloating", "IntegralToBoolean") else None
        if l is not None:
            return l
        if ck == "IntegralCast":
            if src.k == "bool":
                return "(if %s { 1%s } else { 0%s })" % (self.rv(e), dst.k, dst.k)
            if src.k == dst.k:
                return self.rv(e)
            return "((%s) as %s)" % (self.rv(e), dst.k)
        if ck == "IntegralToBoolean":
            return "((%s) != 0)" % self.rv(e)
        if ck == "IntegralToFloating":
            if src.k == "u64":
                return "dbl_of_u64(%s)" % self.rv(e)
            return "dbl_of_u64((%s) as u64)" % self.rv(e)
        if ck == "FloatingToIntegral":
            return "dbl_to_u64(%s)" % self.rv(e)
        self.fail(n, "cast " + str(ck))

    rv_ImplicitCastExpr = rv_CStyleCastExpr = rv_CXXStaticCastExpr = rv_CXXFunctionalCastExpr = rv_cast

    def rv_IntegerLiteral(self, n, ch):
        return self.lit(n, self.ty(n))

    def rv_CXXBoolLiteralExpr(self, n, ch):
        return "true" if n["value"] else "false"

    def rv_CharacterLiteral(self, n, ch):
        return "%di8" % n["value"]

    def rv_FloatingLiteral(self, n, ch):
        v = float(n["value"])
        if v == int(v) and v >= 0:
            return "dbl_of_u64(%du64)" % int(v)
        import fractions
        fr = fractions.Fraction(v).limit_denominator(10**9)
        return "dbl_frac(%du64, %du64)" % (fr.numerator, fr.denominator)

    def rv_DeclRefExpr(self, n, ch):
        rd = n["referencedDecl"]
        if rd["kind"] == "EnumConstantDecl":
            return rd["name"]
        t = self.ty(n)
        v = self.env.get(rd["id"])
        if isinstance(v, tuple):
            self.fail(n, "pointer value")
        return self.place(n)

    def rv_CXXThisExpr(self, n, ch):
        return self.this

    def rv_MemberExpr(self, n, ch):
        return self.place(n)

    def rv_ArraySubscriptExpr(self, n, ch):
        b = strip(ch[0])
        if b.get("kind") == "DeclRefExpr":
            v = self.env.get(b["referencedDecl"]["id"])
            if isinstance(v, tuple) and v[0] == "condarr":
                i = self.fresh("ix")
                return "({ let %s = %s; if %s { %s[%s as usize] } else { %s[%s as usize] } })" % (
                    i, self.rv(ch[1]), v[1], v[2], i, v[3], i)
        if self.is_param_array(b):
            return self.place(n)
        bt = parse_type(qtype(ch[0]))
        sbt = parse_type(qtype(b))
        if sbt.k == "arr":
            return self.place(n)
        if bt.k == "ptr" and bt.a[0].const:
            base, off = self.cptr(b)
            return "%s[(%s + %s) as usize]" % (base.lstrip("&") if base.startswith("&") else base, off, self.rv(ch[1]))
        if bt.k == "ptr":
            return "%s.load(%s, %s)" % (self.region(), self.ptr(b), self.rv(ch[1]))
        self.fail(n, "subscript")

    def rv_ConditionalOperator(self, n, ch):
        return "(if %s { %s } else { %s })" % (self.rv(ch[0]), self.rv(ch[1]), self.rv(ch[2]))

    CMP = {"==": "==", "!=": "!=", "<": "<", ">": ">", "<=": "<=", ">=": ">="}
    DCMP = {"==": "dbl_eq", "!=": "dbl_ne", "<": "dbl_lt", ">": "dbl_gt", "<=": "dbl_le", ">=": "dbl_ge"}
    DOP = {"+": "dbl_add", "-": "dbl_sub", "*": "dbl_mul", "/": "dbl_div"}

    def rv_BinaryOperator(self, n, ch):
        op = n["opcode"]
        if op == "=":
            return "({ %s %s })" % (self.assign(n, ch), self.rv(ch[0]))
        if op == ",":
            return "({ %s; %s })" % (self.rv(ch[0]), self.rv(ch[1]))
        if op in ("&&", "||"):
            return "(%s %s %s)" % (self.rv(ch[0]), op, self.rv(ch[1]))
        lt = self.ty(ch[0])
        if op in self.CMP:
            if lt.k == "dbl":
                return "%s(%s, %s)" % (self.DCMP[op], self.rv(ch[0]), self.rv(ch[1]))
            if lt.k == "ptr":
                for x, y in (ch, ch[::-1]):
                    o = self.shared_get(x)
                    if o is not None and op in ("==", "!=") and strip(y).get("kind") in ("CXXNullPtrLiteralExpr", "GNUNullExpr"):
                        return "(%s.len() %s 0)" % (o, op)
                self.fail(n, "pointer comparison")
            return "(%s %s %s)" % (self.rv(ch[0]), self.CMP[op], self.rv(ch[1]))
        if lt.k == "dbl":
            return "%s(%s, %s)" % (self.DOP[op], self.rv(ch[0]), self.rv(ch[1]))
        if lt.k == "ptr":
            return self.ptr(n)
        if op in ("<<", ">>"):
            return "(%s %s (%s))" % (self.rv(ch[0]), op, self.rv(ch[1]))
        if op == "-" and self.wrapping and lt.k == "u64":
            return "%s.wrapping_sub(%s)" % (self.rv(ch[0]), self.rv(ch[1]))
        if op in ("+", "-", "*", "/", "%", "&", "|", "^"):
            return "(%s %s %s)" % (self.rv(ch[0]), op, self.rv(ch[1]))
        self.fail(n, "operator " + op)

    def shared_get(self, n):
        """place of a shared_ptr p in p.get()"""
        n = strip(n)
        if n.get("kind") == "CXXMemberCallExpr":
            m = strip(inner(n)[0])
            if m.get("name") == "get" and inner(m) and parse_type(qtype(strip(inner(m)[0]))).strip().k == "shared":
                return self.place(inner(m)[0])
        return None

    def rv_CompoundAssignOperator(self, n, ch):
        return "({ %s %s })" % (self.assign(n, ch), self.rv(ch[0]))

    def rv_UnaryOperator(self, n, ch):
        op = n["opcode"]
        if op == "!":
            return "(!(%s))" % self.rv(ch[0])
        if op == "~":
            return "(!(%s))" % self.rv(ch[0])
        if op == "+":
            return self.rv(ch[0])
        if op == "-":
            t = self.ty(n)
            if t.k == "dbl":
                return "dbl_neg(%s)" % self.rv(ch[0])
            l = self.lit(n, t)
            if l:
                return l
            if t.k in ("u64", "u32"):
                self.fail(n, "minus on an unsigned number")
            return "(0 - %s)" % self.rv(ch[0])
        if op in ("++", "--"):
            p = self.place(ch[0])
            one = "1" + self.ty(n).k
            if self.ty(n).k not in INT_KINDS:
                self.fail(n, "increment")
            upd = "%s = %s + %s;" % (p, p, one) if op == "++" else "%s = %s.wrapping_sub(%s);" % (p, p, one)
            if n.get("isPostfix"):
                t = self.fresh()
                return "({ let %s = %s; %s %s })" % (t, p, upd, t)
            return "({ %s %s })" % (upd, p)
        if op == "*":
            return self.place(n)
        if op == "&":
            return self.ptr(n)
        self.fail(n, "unary " + op)

    def rv_InitListExpr(self, n, ch):
        t = self.ty(n)
        if t.k == "arr":
            items = n.get("array_filler")
            if items is not None:
                # explicit initialisers first, rest value-initialised
                ex = [c for c in items if c.get("kind") != "ImplicitValueInitExpr"]
                if all(strip(c).get("kind") == "IntegerLiteral" and int(strip(c)["value"]) == 0 for c in ex):
                    return "[0; %d]" % t.a[1]
            if len(ch) == t.a[1]:
                return "[%s]" % ", ".join(self.rv(c) for c in ch)
        self.fail(n, "initialiser list")

    def rv_CXXDefaultArgExpr(self, n, ch):
        self.fail(n, "default argument")

    def rv_UnaryExprOrTypeTraitExpr(self, n, ch):
        if n.get("name") == "sizeof" and parse_type(n.get("argType", {}).get("qualType", "")).k == "u64":
            return "8u64"
        self.fail(n, "sizeof")

    # ----------------------------------------------------------- calls
    def args(self, target, args, nodes_params=None):
        """Render call arguments; returns (prefix statements, list of argument strings)."""
        pre, out = [], []
        effect = []
        for i, (p, t) in enumerate(zip(target.params, target.ptypes)):
            a = args[i] if i < len(args) else None
            if a is None or strip(a).get("kind") == "CXXDefaultArgExpr":
                d = [c for c in inner(p)]
                if not d:
                    # default may sit on the declaration
                    d = self.default_of(target, i)
                if not d:
                    self.fail(target.node, "default argument of %s" % target.name)
                out.append(self.rv(d[-1]))
                continue
            s = t.strip()
            if t.k == "ptr" and s.a[0].k == "u64" and s.a[0].const:
                b, o = self.cptr(a)
                tmp = self.fresh("off")
                pre.append("let %s = %s;" % (tmp, o))
                out.append(b if b.startswith("&") or not b else b)
                out.append(tmp)
                continue
            if t.k == "ptr" and s.a[0].k == "cls" and s.a[0].const:
                x = self.array_arg(a, False)
                out.append(x if x.startswith("&") or self.is_ref_name(x) else "&" + x)
                continue
            if t.k == "ptr" and s.a[0].k == "u64":
                if target.cls is None and target.region_provider() is None:
                    out.append(self.array_arg(a, p["id"] in target.mut_params))
                    continue
                e = self.ptr(a)
                if "(" in e:
                    tmp = self.fresh("p")
                    pre.append("let %s = %s;" % (tmp, e))
                    if ".load_memory" in e:
                        effect.append(len(pre) - 1)
                    e = tmp
                out.append(e)
                continue
            if t.k in ("ref", "rref") and s.k not in INT_KINDS + ("bool", "dbl"):
                if t.k == "rref" or p["id"] in target.mut_params:
                    sa = strip(a)
                    if self.is_place(sa):
                        out.append(self.mutref(sa) if t.k == "ref" else self.mutref(sa))
                    else:
                        tmp = self.fresh()
                        pre.append("let mut %s = %s;" % (tmp, self.rv(a)))
                        out.append("&mut " + tmp)
                else:
                    sa = strip(a)
                    if self.is_place(sa):
                        out.append(self.constref(sa))
                    else:
                        tmp = self.fresh()
                        pre.append("let %s = %s;" % (tmp, self.rv(a)))
                        out.append("&" + tmp)
                continue
            if t.k == "ref" and p["id"] in target.mut_params:
                pl = self.place(a)
                m = re.match(r"^\(\*(\w+)\)$", pl)
                out.append(m.group(1) if m else "&mut " + pl)
                continue
            e = self.rv(a)
            if not re.match(r"^[\w.]+$", e):
                tmp = self.fresh()
                pre.append("let %s = %s;" % (tmp, e))
                e = tmp
            out.append(e)
        if len(effect) > 1:
            # unspecified evaluation order in C++: prove both
            a, b = [pre[i] for i in effect[:2]]
            na, nb = [re.match(r"let (\w+) =", x).group(1) for x in (a, b)]
            ea, eb = [x.split("=", 1)[1].strip().rstrip(";") for x in (a, b)]
            both = "let (%s, %s) = if arb_bool() { let x_ = %s; let y_ = %s; (x_, y_) } else { let y_ = %s; let x_ = %s; (x_, y_) };" % (
                na, nb, ea, eb, eb, ea)
            pre = [x for i, x in enumerate(pre) if i not in effect] + [both]
        return pre, out

    def default_of(self, target, i):
        for tu in self.prog.tus:
            for q, node in tu.funcs:
                if q == target.qual and node["type"]["qualType"] == target.node["type"]["qualType"]:
                    ps = params_of(node)
                    if i < len(ps) and inner(ps[i]):
                        return inner(ps[i])
        return None

    def array_arg(self, a, mut):
        a = strip(a)
        if a.get("kind") == "CXXMemberCallExpr" and strip(inner(a)[0]).get("name") == "data":
            return ("&mut " if mut else "&") + self.place(inner(strip(inner(a)[0]))[0])
        if self.is_param_array(a):
            return self.array_of(a)
        self.fail(a, "array argument")

    def is_place(self, n):
        n = strip(n)
        k = n.get("kind")
        if k in ("DeclRefExpr", "MemberExpr", "CXXThisExpr"):
            return True
        if k == "CXXOperatorCallExpr":
            op = strip(inner(n)[0]).get("referencedDecl", {}).get("name")
            return op in ("operator[]", "operator*", "operator->")
        if k == "UnaryOperator" and n.get("opcode") == "*":
            return True
        if k == "CallExpr":
            nm = strip(inner(n)[0]).get("referencedDecl", {}).get("name")
            return nm in ("move", "forward") and self.is_place(inner(n)[1])
        if k == "CXXMemberCallExpr":
            return strip(inner(n)[0]).get("name") in ("back", "front")
        return False

    def is_ref_name(self, pl):
        """Is this rust name itself a reference (parameter passed by & or &mut)?"""
        if pl == "self":
            return not self.f.is_ctor
        for p, t in zip(self.f.params, self.f.ptypes):
            if ident(p.get("name", "")) == pl and t.k in ("ref", "rref") and p["id"] not in self.env:
                return True
        e = self.parent
        if e is not None:
            return e.is_ref_name(pl)
        return False

    def mutref(self, n):
        pl = self.place(n)
        if self.is_ref_name(pl):
            return pl
        return "&mut " + pl

    def constref(self, n):
        pl = self.place(n)
        if self.is_ref_name(pl):
            return pl
        return "&" + pl

    def call(self, n, target, obj, args):
        """A call to a function of the repository."""
        if obj is not None and not self.f.is_ctor and self.ref_member(obj) and uses_shared(self.prog, target):
            self.fail(n, "object reached through two names")
        if self.prog.is_inline(target):
            return self.inline_call(n, target, obj, args)
        pre, out = self.args(target, args)
        if target.mem and target.region_provider() is None:
            pl = self.object_place(obj) if self.f.own_region() else None
            out.append(self.region_arg(target, pl))
            if self.f.own_region():
                others = {self.region(self.object_place(a)) for a, t in zip(args, target.ptypes) if t.strip() .k == "cls" and t.strip().a[0] == "graphBits"}
                others.discard(self.region(pl))
                if others:
                    if target.is_ctor or len(others) > 1 or target.cls is None or target.spec_name() + "_x" not in self.prog.specs:
                        self.fail(n, "call across memory regions")
                    target = self.prog.by_spec[target.spec_name() + "_x"]
                    out.append("&" + others.pop())
        if target.is_ctor:
            call = "%s::%s(%s)" % (target.cls, target.rust_name(), ", ".join(out))
        elif target.cls and not target.is_static_method:
            if obj is None:
                o = self.this
            else:
                save, self.pre = self.pre, []
                o = self.place(obj) if parse_type(qtype(obj)).k != "ptr" else self.deref(obj)
                pre = self.pre + pre
                self.pre = save
            call = "%s.%s(%s)" % (o, target.rust_name(), ", ".join(out))
        elif target.cls:
            call = "%s::%s(%s)" % (target.cls, target.rust_name(), ", ".join(out))
        else:
            call = "%s(%s)" % (target.rust_name(), ", ".join(out))
        if target.throws:
            e = self.fresh("e")
            ret = self.ret_err()
            call = "(match %s { Ok(v_) => v_, Err(%s) => { return Err(%s); } })" % (call, e, e)
        if pre:
            return "({ %s %s })" % (" ".join(pre), call)
        return call

    def object_place(self, n):
        if n is None or not self.is_place(n):
            return None
        save, self.pre = self.pre, []
        pl = self.place(n)
        self.pre = save
        return pl

    def ret_err(self):
        e = self
        while e.parent is not None:
            e = e.parent
        if not e.f.throws:
            raise ExtractionError("exception outside a throwing function")

    def rv_CXXMemberCallExpr(self, n, ch):
        m = strip(ch[0])
        if m.get("kind") != "MemberExpr":
            self.fail(n, "member call")
        name = m["name"]
        obj = inner(m)[0] if inner(m) else None
        target = self.prog.find(self.f.tu, m.get("referencedMemberDecl"))
        if target is not None:
            return self.call(n, target, obj, ch[1:])
        ot = parse_type(qtype(obj)).strip()
        if ot.k == "ptr":
            ot = ot.a[0].strip()
        r = self.std_method(n, name, obj, ot, ch[1:])
        if r is None:
            self.fail(n, "call to %s on %r" % (name, ot))
        return r

    def std_method(self, n, name, obj, ot, args):
        o = None
        if ot.k in ("vec", "set", "ndview", "ndarray", "shared", "arr", "pair", "str"):
            if strip(obj).get("kind") == "MemberExpr" and strip(obj).get("isArrow") is None:
                pass
            o = self.place(obj)
        if ot.k == "vec":
            if name == "size":
                return "(%s.len() as u64)" % o
            if name == "empty":
                return "(%s.len() == 0)" % o
            if name == "push_back" or (name == "emplace_back" and len(args) == 1):
                return "({ let x_ = %s; vec_push(&mut %s, x_) })" % (self.move_arg(args[0]), o)
            if name == "pop_back":
                return "vec_pop_back(&mut %s)" % o
            if name == "clear":
                if self.is_region(obj):
                    return None
                return "%s.clear()" % o
            if name == "reserve":
                return "()"
            if name == "resize":
                if self.is_region(obj):
                    return "%s.resize(%s)" % (o, self.rv(args[0]))
                if len(args) == 1 or strip(args[1]).get("kind") == "CXXDefaultArgExpr":
                    et = ot.a[0]
                    sfx = {"dbl": "dbl"}.get(et.k, et.k) if et.k != "cls" else et.a[0]
                    return "vec_resize_%s(&mut %s, %s)" % (sfx, o, self.rv(args[0]))
            if name == "swap":
                other = self.place(args[0])
                if self.is_region(obj):
                    return "%s.swap(&mut %s)" % (o, other)
                return "std::mem::swap(&mut %s, &mut %s)" % (o, other)
            if name in ("back", "front", "at"):
                return self.place(n)
            if name == "capacity":
                return "arb_u64()"
        if ot.k == "str" and name == "c_str":
            return o
        c = self.stream_chain(obj, "operator>>")
        if c is not None:
            return self.stream_method(n, name, c, args)
        return self.std_method_ext(n, name, obj, ot, args, o)

    # ------------------------------------------------------------ files
    def stream_chain(self, n, op):
        """(place, operands) of f op a op b on a file opened in this function"""
        n = strip(n)
        if n.get("kind") == "CXXOperatorCallExpr" and strip(inner(n)[0]).get("referencedDecl", {}).get("name") == op:
            c = self.stream_chain(inner(n)[1], op)
            return None if c is None else (c[0], c[1] + [inner(n)[2]])
        if n.get("kind") == "DeclRefExpr" and parse_type(qtype(n)).strip().k in ("ifile", "ofile"):
            return self.place(n), []
        return None

    def reads(self, c):
        r = ""
        for a in c[1]:
            if self.ty(a).k != "u64":
                self.fail(a, "read of a value that is not an unsigned 64-bit number")
            r += "%s.read_u64(&mut %s); " % (c[0], self.place(a))
        return r

    def stream_method(self, n, name, c, args):
        f = "({ %s%s.%%s })" % (self.reads(c), c[0]) if c[1] else c[0] + ".%s"
        if name in ("is_open", "peek", "eof", "fail", "close") and not args:
            return f % (name + "()")
        if name == "operator bool":
            return "(!%s)" % (f % "fail()")
        if name == "ignore" and len(args) == 2:
            return f % ("ignore(%s, %s)" % (self.rv(args[0]), self.rv(args[1])))
        return None

    def text(self, b):
        t = self.fresh("text")
        self.emit("let ghost %s = seq![%s];" % (t, ", ".join("%du8" % x for x in b)))
        return "write_lit(Ghost(%s))" % t

    def writes(self, c):
        for a in c[1]:
            s = strip(a)
            k = s.get("kind")
            if k == "StringLiteral":
                b = list(json.loads(s["value"].replace("\\'", "'")).encode())
                r = self.text(b)
            elif k == "CharacterLiteral":
                r = self.text([s["value"]])
            elif s.get("referencedDecl", {}).get("name") == "endl":
                r = self.text([10])
            elif self.ty(a).k == "u64":
                r = "write_u64(%s)" % self.with_pre(lambda: self.rv(a))
            else:
                self.fail(a, "value written to a file")
            self.emit("%s.%s;" % (c[0], r))

    def std_method_ext(self, n, name, obj, ot, args, o):
        if ot.k in ("ndview", "ndarray") and name == "shape" and len(args) == 1:
            return "%s.shape(%s)" % (o, self.rv(args[0]))
        if ot.k == "ndarray" and name == "resize":
            l = self.find_kind(args[0], "InitListExpr")
            if l is not None and len(inner(l)) == 2:
                return "%s.reshape2(%s, %s)" % ((o,) + tuple(self.rv(x) for x in inner(l)))
        if ot.k == "set":
            if name == "insert" and len(args) == 1:
                return "({ let x_ = %s; %s.insert(x_) })" % (self.rv(args[0]), o)
            if name == "empty":
                return "%s.is_empty()" % o
            if name == "size":
                return "%s.size()" % o
            if name == "erase" and len(args) == 1:
                f = self.set_find(args[0])
                if f is not None and f[0] == o:
                    return "({ let x_ = %s; %s.erase(x_) })" % (f[1], o)
                if f is None and self.ty(args[0]).k in INT_KINDS:
                    return "({ let x_ = %s; if %s.has(x_) { %s.erase(x_); } })" % (self.rv(args[0]), o, o)
            if name == "count" and len(args) == 1:
                return "(if %s.has(%s) { 1u64 } else { 0u64 })" % (o, self.rv(args[0]))
        if ot.k == "vec" and name in ("insert", "erase") and not self.is_region(obj):
            b = self.vec_iter(args[0])
            if b is not None and b[0] == o and name == "insert" and len(args) == 2 and ot.a[0].k in ("u64", "dbl"):
                return "({ let x_ = %s; %s.insert((%s) as usize, x_) })" % (self.rv(args[1]), o, b[1])
            if b is not None and b[0] == o and name == "erase" and len(args) == 1:
                return "({ let _ = %s.remove((%s) as usize); })" % (o, b[1])
        m = parse_type(qtype(strip(obj))).strip()
        if m.k == "pyobj" and name == "row" and len(args) == 1:
            return "(%s).row(%s)" % (self.rv(obj), self.rv(args[0]))
        if m.k == "row" and name in ("norm", "squaredNorm") and not args:
            return "row_%s(%s)" % ({"norm": "norm", "squaredNorm": "squares"}[name], self.row(obj))
        if ot.k == "shared" and name == "operator bool":
            return "(%s.len() != 0)" % o
        if ot.k == "shared" and name == "reset" and not args:
            return "%s.clear()" % o
        return None

    def row(self, n):
        return "*" + self.constref(strip(n)) if self.is_place(n) else self.rv(n)

    def move_arg(self, a):
        return self.rv(a)

    def rv_CXXOperatorCallExpr(self, n, ch):
        rd = strip(ch[0])["referencedDecl"]
        op = rd["name"]
        target = self.prog.find(self.f.tu, rd["id"])
        if target is not None:
            if target.cls:
                return self.call(n, target, ch[1], ch[2:])
            return self.call(n, target, None, ch[1:])
        if op == "operator[]":
            if self.is_region(ch[1]):
                return "%s.get(%s)" % (self.place(ch[1]), self.rv(ch[2]))
            bt = parse_type(qtype(strip(ch[1]))).strip()
            if bt.k == "vec":
                return self.place(n)
        r = self.std_operator(n, op, ch)
        if r is None:
            self.fail(n, "operator " + op)
        return r

    def lambda_call(self, n, ch):
        """A call of a std::function parameter of an inlined function: the lambda given for it, in place."""
        c = strip(ch[1])
        e = self
        la = None
        while e is not None and la is None and c.get("kind") == "DeclRefExpr":
            la = e.lambda_env.get(c["referencedDecl"]["id"])
            e = e.parent
        if la is None or la[0] is None:
            return self.callback(n, ch)
        node, home = la
        op = None
        for r in inner(node):
            for m in inner(r):
                if m.get("kind") == "CXXMethodDecl" and m.get("name") == "operator()":
                    op = m
        body = [x for x in inner(node) if x.get("kind") == "CompoundStmt"][-1]
        pre = []
        env = dict(home.env)
        for p, a in zip(params_of(op), ch[2:]):
            tmp = self.fresh(ident(p.get("name") or "anon"))
            pre.append("let %s: %s = %s;" % (tmp, rust_type(parse_type(qtype(p)).strip()), self.rv(a)))
            env[p["id"]] = tmp
        sub = type(self)(home.f, parent=self, env=env, this=home.this)
        sub.ind = self.ind + 1
        sub.cur_line = self.cur_line
        if any(self.has_return(x) for x in inner(body)):
            val = sub.tail(inner(body), False)
            return "({ %s\n%s\n%s })" % (" ".join(pre), "\n".join(l for l, _ in sub.lines), val)
        for x in inner(body):
            sub.stmt(x)
        return "({ %s\n%s\n })" % (" ".join(pre), "\n".join(l for l, _ in sub.lines))

    def callback(self, n, ch):
        """A call of a function object the library was given: it may throw."""
        t = parse_type(qtype(strip(ch[1]))).strip()
        c = strip(ch[1])
        if c.get("kind") == "DeclRefExpr" and not any(p["id"] == c["referencedDecl"]["id"] for p in self.f.params):
            self.fail(n, "call of an unknown function object")
        func_type(t)
        self.ret_err()
        pre, out = [], []
        for a, pt in zip(ch[2:], t.a[1]):
            if pt.strip().k == "pyobj":
                out.append(self.constref(a))
            else:
                tmp = self.fresh()
                pre.append("let %s = %s;" % (tmp, self.rv(a)))
                out.append(tmp)
        e = self.fresh("e")
        return "({ %s (match %s.call(%s) { Ok(v_) => v_, Err(%s) => { return Err(%s); } }) })" % (" ".join(pre), self.place(ch[1]), ", ".join(out), e, e)

    def std_operator(self, n, op, ch):
        if op == "operator()" and parse_type(qtype(strip(ch[1]))).strip().k == "func":
            return self.lambda_call(n, ch)
        c = self.stream_chain(n, "operator>>")
        if c is not None and c[1]:
            return "({ %s})" % self.reads(c)
        if op == "operator!" and len(ch) == 2:
            c = self.stream_chain(ch[1], "operator>>")
            if c is not None:
                return self.stream_method(n, "fail", c, [])
        a = parse_type(qtype(strip(ch[1]))).strip()
        if a.k == "ndview" and op == "operator()" and len(ch) == 4:
            return "%s.at((%s) as i64, (%s) as i64)" % (self.place(ch[1]), self.rv(ch[2]), self.rv(ch[3]))
        if a.k == "ndview" and op == "operator()" and len(ch) == 3:
            return "%s.at1((%s) as i64)" % (self.place(ch[1]), self.rv(ch[2]))
        if op in ("operator==", "operator!="):
            for x, y in ((ch[1], ch[2]), (ch[2], ch[1])):
                f, e = self.set_find(x), self.set_end(y)
                if f is not None and f[0] == e:
                    return "(%s%s.has(%s))" % ("!" if op == "operator==" else "", f[0], f[1])
        if a.k == "shared" and op in ("operator==", "operator!=") and strip(ch[2]).get("kind") == "CXXNullPtrLiteralExpr":
            return "(%s.len() %s 0)" % (self.place(ch[1]), op[8:])
        if a.k == "row" and op == "operator-" and len(ch) == 3:
            return "row_sub(%s, %s)" % (self.row(ch[1]), self.row(ch[2]))
        if a.k == "shared" and op == "operator=":
            return "{ %s = %s; }" % (self.place(ch[1]), self.rv(ch[2]))
        if op == "operator=" and parse_type(qtype(ch[1])).strip().k == "time":
            r = strip(ch[2])
            if r.get("kind") == "CallExpr" and strip(inner(r)[0]).get("referencedDecl", {}).get("name") == "now":
                return "{ %s = clock_now(); }" % self.place(ch[1])
        return None

    def rv_CallExpr(self, n, ch):
        callee = strip(ch[0])
        rd = callee.get("referencedDecl", {})
        target = self.prog.find(self.f.tu, rd.get("id"))
        if target is not None:
            return self.call(n, target, None, ch[1:])
        nm = rd.get("name")
        a = ch[1:]
        if nm in ("move", "forward"):
            return self.rv(a[0])
        if nm == "swap":
            return self.swap(n, a)
        if nm == "copy" and is_ptr_type(a[0]):
            r = self.ptr_region(a[0])
            if r != self.region():
                return "%s.copy_from(%s, %s, %s, %s)" % (self.region(), r, self.ptr(a[0]), self.ptr(a[1]), self.ptr(a[2]))
            return "%s.copy(%s, %s, %s)" % (self.region(), self.ptr(a[0]), self.ptr(a[1]), self.ptr(a[2]))
        if nm in ("fill", "fill_n") and is_ptr_type(a[0]):
            if nm == "fill":
                return "%s.fill(%s, %s, %s)" % (self.region(), self.ptr(a[0]), self.ptr(a[1]), self.rv(a[2]))
            p = self.ptr(a[0])
            return "({ let p_ = %s; %s.fill(p_, p_.add(%s), %s) })" % (p, self.region(), self.rv(a[1]), self.rv(a[2]))
        if nm in ("__builtin_clzll", "__builtin_clzl"):
            return "((clzll(%s)) as i32)" % self.rv(a[0])
        if nm in ("__builtin_popcountll", "__builtin_popcountl"):
            return "((popcountll(%s)) as i32)" % self.rv(a[0])
        if nm in ("__builtin_ctzll", "__builtin_ctzl"):
            return "((ctzll(%s)) as i32)" % self.rv(a[0])
        if nm in ("min", "max") and len(a) == 2 and self.ty(a[0]).k == "u64":
            return "u64_%s(%s, %s)" % (nm, self.rv(a[0]), self.rv(a[1]))
        if nm in ("min", "max") and len(a) == 2 and self.ty(a[0]).k == "dbl":
            return "dbl_%s(%s, %s)" % (nm, self.rv(a[0]), self.rv(a[1]))
        if nm == "make_pair" and len(a) == 2:
            return "Pair { first: %s, second: %s }" % (self.rv(a[0]), self.rv(a[1]))
        r = self.std_call(n, nm, a)
        if r is None:
            self.fail(n, "call to " + str(nm))
        return r

    def swap(self, n, a):
        x, y = strip(a[0]), strip(a[1])
        if x.get("kind") == "ArraySubscriptExpr" and y.get("kind") == "ArraySubscriptExpr":
            xb, yb = strip(inner(x)[0]), strip(inner(y)[0])
            if self.is_param_array(xb) and self.is_param_array(yb) and self.array_of(xb) == self.array_of(yb):
                v = self.array_of(xb)
                return "vec_swap(%s, %s, %s)" % (v, self.rv(inner(x)[1]), self.rv(inner(y)[1]))
        px, py = self.place(a[0]), self.place(a[1])
        t = self.fresh()
        return "({ let %s = %s; %s = %s; %s = %s; })" % (t, px, px, py, py, t)

    def std_call(self, n, nm, a):
        if nm == "sort":
            return self.sort(n, a)
        if nm == "sqrt" and len(a) == 1 and self.ty(n).k == "dbl":
            return "dbl_sqrt(%s)" % self.rv(a[0])
        if nm == "max" and not a and self.ty(n).k == "i64":
            return "i64::MAX"
        if nm == "make_shared":
            t = self.ty(n)
            c = t.a[0].a[0]
            ts = [g for g in self.prog.funcs.values() if g.is_ctor and g.cls == c and len(g.params) == len(a)]
            if t.k == "shared" and len(ts) == 1:
                return "vec_one(%s)" % self.call(n, ts[0], None, a)
        return None

    def sort(self, n, a):
        """std::sort(v.begin(), v.begin()+n, std::greater<T>()) on a vector of records."""
        b = self.vec_iter(a[0])
        e = self.vec_iter(a[1])
        if b is None or e is None or b[0] != e[0]:
            self.fail(n, "std::sort arguments")
        if len(a) == 2:
            c = re.search(r"(\w+)<[^<>]*> \*", qtype(a[0]))
            if c is None or c.group(1) + "::op_lt_" + c.group(1) not in self.prog.specs:
                self.fail(n, "std::sort without an order under contract")
            return "({ let hi_ = %s; vec_sort_%s(&mut %s, %s, hi_) })" % (e[1], c.group(1), b[0], b[1])
        return "vec_sort_range(&mut %s, %s, %s)" % (b[0], b[1], e[1])

    def vec_iter(self, n):
        """(vector place, offset) of an iterator expression begin()/end() + k."""
        n = self.unwrap(n)
        k = n.get("kind")
        ch = inner(n)
        if k == "CXXMemberCallExpr":
            m = strip(ch[0])
            v = self.place(inner(m)[0])
            if m["name"] in ("begin", "cbegin"):
                return v, "0u64"
            if m["name"] in ("end", "cend"):
                return v, "(%s.len() as u64)" % v
        if k == "CXXOperatorCallExpr" and strip(ch[0])["referencedDecl"]["name"] == "operator+":
            r = self.vec_iter(ch[1])
            if r:
                l = self.rv(ch[2])
                l = re.sub(r"^\(\((.*)\) as i64\)$", r"\1", l)
                return r[0], l if r[1] == "0u64" else "(%s + %s)" % (r[1], l)
        return None

    def unwrap(self, n):
        while True:
            n = strip(n)
            if n.get("kind") in ("CXXConstructExpr",) and len(inner(n)) == 1:
                n = inner(n)[0]
                continue
            return n

    def rv_CXXConstructExpr(self, n, ch):
        t = self.ty(n)
        if t.k == "cls":
            target = ctor_target(self.f, n)
            ct = n.get("ctorType", {}).get("qualType", "")
            # copy / move construction is a bitwise copy of the record
            if len(ch) == 1 and re.match(r"^void \((const )?%s &&?\)" % t.a[0].split("_")[-1], ct):
                if target is None or self.is_move_ctor(target):
                    return self.rv(ch[0])
            if target is not None:
                return self.call(n, target, None, ch)
            if not ch:
                return arb(t)
        if t.k == "vec":
            if not ch:
                return "Vec::new()"
            ct = n.get("ctorType", {}).get("qualType", "")
            if len(ch) == 1 and ("&&" in ct or "const std::vector" in ct or "const vector" in ct):
                return self.rv(ch[0])
            real = [c for c in ch if strip(c).get("kind") != "CXXDefaultArgExpr"]
            if len(real) == 1 and self.ty(real[0]).k in INT_KINDS:
                return "vec_new_%s(%s)" % ({"u64": "sized", "set": "sets", "dbl": "dbl"}[t.a[0].k], self.rv(real[0]))
        if t.k == "pair":
            if not ch:
                return arb(t)
            if len(ch) == 1:
                return self.rv(ch[0])
            if len(ch) == 2:
                return "Pair { first: %s, second: %s }" % (self.rv(ch[0]), self.rv(ch[1]))
        r = self.construct_ext(n, t, ch)
        if r is not None:
            return r
        self.fail(n, "construction of %r" % t)

    rv_CXXTemporaryObjectExpr = rv_CXXConstructExpr

    def construct_ext(self, n, t, ch):
        real = [c for c in ch if strip(c).get("kind") != "CXXDefaultArgExpr"]
        if t.k in ("set", "ndarray") and len(real) == 1 and self.ty(real[0]).k == t.k:
            return self.rv(real[0])
        if t.k == "ndarray" and real:
            c = self.unwrap(real[0])
            return "NdArray::new1((%s) as u64)" % self.rv(c)
        if t.k == "set" and not real:
            return "StdSet::new()"
        if t.k == "set" and len(real) == 2:
            b, e = self.vec_iter(real[0]), self.vec_iter(real[1])
            if b is not None and e is not None and b[0] == e[0]:
                return "StdSet::of_range(&%s, %s, %s)" % (b[0], b[1], e[1])
        if t.k == "shared" and not ch:
            return "Vec::new()"
        if t.k == "shared" and len(ch) == 1 and strip(ch[0]).get("kind") == "CXXNewExpr":
            return "vec_one(%s)" % self.rv(inner(strip(ch[0]))[0])
        if t.k == "shared" and len(ch) == 1 and self.ty(ch[0]).k == "shared":
            c = strip(ch[0])
            if c.get("kind") == "MemberExpr" and c.get("valueCategory") == "lvalue":
                if not self.f.is_ctor:
                    self.fail(n, "copy of a shared pointer outside a constructor")
                return "alias(&%s)" % self.place(c)      # both own the object
            return self.rv(ch[0])
        if t.k == "pyobj" and len(ch) == 1:
            return self.rv(ch[0])
        return None

    def is_move_ctor(self, target):
        """A user-written move constructor must copy every field for the bitwise reading."""
        tu, rec = self.prog.records[target.cls]
        fields = [c["name"] for c in inner(rec) if c.get("kind") == "FieldDecl"]
        done = set()
        pname = target.params[0]["name"]
        pid = target.params[0]["id"]

        def src_field(e):
            e = strip(e)
            while e.get("kind") in ("CXXConstructExpr", "CallExpr"):
                c = inner(e)
                e = strip(c[-1])
            if e.get("kind") == "MemberExpr":
                b = strip(inner(e)[0])
                if b.get("kind") == "DeclRefExpr" and b["referencedDecl"]["id"] == pid:
                    return e["name"]
            return None
        for c in inner(target.node):
            if c["kind"] == "CXXCtorInitializer" and "anyInit" in c:
                nm = c["anyInit"]["name"]
                e = inner(c)
                if e and src_field(e[0]) == nm:
                    done.add(nm)
        for s in inner(body_of(target.node)):
            if s.get("kind") == "BinaryOperator" and s.get("opcode") == "=":
                l, r = inner(s)
                l = strip(l)
                if l.get("kind") == "MemberExpr" and src_field(r) == l["name"]:
                    done.add(l["name"])
        return set(fields) <= done

    # -------------------------------------------------------- inlining
    def inline_call(self, n, target, obj, args):
        if target.recursive:
            self.fail(n, "recursive function without a contract: " + target.name)
        e = self
        depth = 0
        while e is not None:
            depth += 1
            e = e.parent
        if depth > 8:
            self.fail(n, "inlining too deep")
        self.inlined.append(target.spec_name())
        pre = []
        this = None
        if target.cls and not target.is_ctor and not target.is_static_method:
            if obj is None:
                this = self.this
            else:
                save, self.pre = self.pre, pre
                this = self.stable_place(obj, pre)
                self.pre = save
        sub = type(self)(target, parent=self, env=dict(), this=this)
        sub.ind = self.ind + 1
        sub.cur_line = self.cur_line
        for i, (p, t) in enumerate(zip(target.params, target.ptypes)):
            a = args[i] if i < len(args) else None
            s = t.strip()
            nm = ident(p.get("name") or self.fresh("anon"))
            if a is None or strip(a).get("kind") == "CXXDefaultArgExpr":
                d = inner(p) or self.default_of(target, i)
                tmp = self.fresh(nm)
                pre.append("let mut %s: %s = %s;" % (tmp, rust_type(s), self.rv(d[-1])))
                sub.env[p["id"]] = tmp
                continue
            if t.k == "ptr" and s.a[0].const:
                b, o = self.cptr(a)
                tmp = self.fresh("off")
                pre.append("let %s = %s;" % (tmp, o))
                sub.env[p["id"]] = ("cptr", b, tmp)
                continue
            if t.k == "ptr" and target.cls is None and target.region_provider() is None and self.array_like(a):
                sub.env[p["id"]] = ("array", self.array_arg(a, False).replace("&mut ", "").replace("&", ""))
                continue
            if t.k in ("ref", "rref") and self.is_place(a):
                save, self.pre = self.pre, pre
                sub.env[p["id"]] = self.stable_place(a, pre)
                self.pre = save
                continue
            if strip(a).get("kind") == "LambdaExpr" or t.k == "func":
                la = self.find_lambda(a)
                sub.lambda_env[p["id"]] = (la, self)
                continue
            e = self.ptr(a) if t.k == "ptr" else self.rv(a)
            if self.const_scalar(a, p):
                sub.env[p["id"]] = e
                continue
            tmp = self.fresh(nm)
            pre.append("let mut %s: %s = %s;" % (tmp, rust_type(s), e))
            sub.env[p["id"]] = tmp
        if target.is_ctor:
            self.fail(n, "constructor without a contract: " + target.spec_name())
        val = sub.tail(inner(body_of(target.node)), target.ret.k == "void")
        body = "\n".join(l for l, _ in sub.lines)
        return "({ %s\n%s\n%s })" % (" ".join(pre), body, val)

    def const_scalar(self, a, p):
        """Is a const parameter of this function handed on as the const parameter p of the same type?"""
        d = strip(a)
        if d.get("kind") != "DeclRefExpr" or d["referencedDecl"]["id"] not in [x["id"] for x in self.f.params]:
            return False
        x = next(x for x in self.f.params if x["id"] == d["referencedDecl"]["id"])
        q, r = qtype(x), qtype(p)
        return q == r and q.startswith("const ") and parse_type(q).k in ("dbl", "u64", "u32", "i32", "i64", "bool")

    def const_root(self, n):
        """Is this part of a parameter passed by reference to const?"""
        n = strip(n)
        while n.get("kind") in ("CXXMemberCallExpr", "MemberExpr"):
            n = strip(inner(n)[0])
        return n.get("kind") == "DeclRefExpr" and any(p["id"] == n["referencedDecl"]["id"] and t.k == "ref" and t.strip().const
                                                      for p, t in zip(self.f.params, self.f.ptypes))

    def array_like(self, a):
        a = strip(a)
        return self.is_param_array(a) or (a.get("kind") == "CXXMemberCallExpr" and strip(inner(a)[0]).get("name") == "data"
                                          and not self.is_region(inner(strip(inner(a)[0]))[0]))

    def find_kind(self, n, kind):
        if n.get("kind") == kind:
            return n
        for c in inner(n):
            r = self.find_kind(c, kind)
            if r is not None:
                return r
        return None

    def set_find(self, n):
        """(set, element) of s.find(x)"""
        n = self.unwrap(n)
        if n.get("kind") == "CXXMemberCallExpr":
            m = strip(inner(n)[0])
            if m.get("name") == "find" and parse_type(qtype(strip(inner(m)[0]))).strip().k == "set":
                return self.place(inner(m)[0]), self.rv(inner(n)[1])
        return None

    def set_end(self, n):
        n = self.unwrap(n)
        if n.get("kind") == "CXXMemberCallExpr":
            m = strip(inner(n)[0])
            if m.get("name") in ("end", "cend") and parse_type(qtype(strip(inner(m)[0]))).strip().k == "set":
                return self.place(inner(m)[0])
        return None

    def find_lambda(self, n):
        if n.get("kind") == "LambdaExpr":
            return n
        if n.get("kind") == "DeclRefExpr" and n["referencedDecl"]["id"] in self.lambdas:
            return self.lambdas[n["referencedDecl"]["id"]]
        for c in inner(n):
            r = self.find_lambda(c)
            if r is not None:
                return r
        return None

    hint = None     # name for the index of the next stable place

    def stable_place(self, n, pre):
        """A place whose index expressions are evaluated once, now."""
        n = strip(n)
        k = n.get("kind")
        ch = inner(n)
        if k == "CXXOperatorCallExpr" and strip(ch[0]).get("referencedDecl", {}).get("name") == "operator[]" \
                and parse_type(qtype(strip(ch[1]))).strip().k == "vec" and not self.is_region(ch[1]):
            hint, self.hint = self.hint, None
            b = self.stable_place(ch[1], pre)
            t = hint or self.fresh("ix")
            pre.append("let %s = addr_of(&%s, %s);" % (t, b, self.rv(ch[2])))
            return "%s[%s as usize]" % (b, t)
        if k == "CXXMemberCallExpr" and strip(ch[0]).get("name") == "back":
            hint, self.hint = self.hint, None
            b = self.stable_place(inner(strip(ch[0]))[0], pre)
            t = hint or self.fresh("ix")
            pre.append("let %s = vec_back_index(&%s);" % (t, b))
            return "%s[%s as usize]" % (b, t)
        if k == "MemberExpr":
            if n.get("isArrow"):
                b = self.deref(ch[0])
            else:
                b = self.stable_place(ch[0], pre)
            return b + "." + ident(n["name"])
        if k == "CallExpr":
            return self.stable_place(ch[1], pre)
        if parse_type(qtype(n)).k == "ptr":
            return self.deref(n)
        return self.place(n)

    def returns(self, s):
        """Does the statement return on every path?"""
        k = s.get("kind")
        if k == "ReturnStmt" or (k == "CXXThrowExpr"):
            return True
        if k == "ExprWithCleanups":
            return self.returns(inner(s)[0])
        if k == "CompoundStmt":
            ch = inner(s)
            return bool(ch) and self.returns(ch[-1])
        if k == "IfStmt":
            ch = inner(s)
            return len(ch) == 3 and self.returns(ch[1]) and self.returns(ch[2])
        return False

    def has_return(self, s):
        if s.get("kind") == "ReturnStmt":
            return True
        if s.get("kind") == "LambdaExpr":
            return False
        return any(self.has_return(c) for c in inner(s))

    def tail(self, stmts, void):
        """Statements of an inlined body in expression form; returns the value expression."""
        i = 0
        while i < len(stmts):
            s = stmts[i]
            if not self.has_return(s):
                self.stmt(s)
                i += 1
                continue
            k = s.get("kind")
            if k == "ReturnStmt":
                ch = inner(s)
                return self.rv(ch[0]) if ch else "()"
            if k == "CompoundStmt":
                return self.tail(inner(s) + stmts[i + 1:], void)
            if k == "IfStmt":
                ch = inner(s)
                rest = stmts[i + 1:]
                c = self.cond(ch[0])
                branches = [ch[1], ch[2] if len(ch) > 2 else None]
                vals = []
                for b in branches:
                    save_l, self.lines = self.lines, []
                    self.ind += 1
                    seq = ([b] if b is not None else [])
                    if b is None or not self.returns(b):
                        seq = seq + rest
                    v = self.tail(seq, void)
                    self.ind -= 1
                    vals.append(("\n".join(l for l, _ in self.lines), v))
                    self.lines = save_l
                return "if %s {\n%s\n%s } else {\n%s\n%s }" % (c, vals[0][0], vals[0][1], vals[1][0], vals[1][1])
            self.fail(s, "return inside a loop of a function without a contract")
        return "()"

    # -------------------------------------------------------- statements
    def cond(self, n):
        return self.rv(n)

    def assign(self, n, ch):
        """Assignment as a statement string (with trailing ';')."""
        op = n["opcode"]
        lhs, rhs = ch
        t = self.ty(lhs)
        sl = strip(lhs)
        sc = inner(sl)
        if t.k == "time":
            return "%s = clock_now();" % self.place(lhs)
        k = sl.get("kind")
        if op == "=":
            val = None
            if t.k == "ptr":
                if t.a[0].const:
                    self.fail(n, "assignment to a const pointer")
                return "%s = %s;" % (self.place(lhs), self.ptr(rhs))
            val = self.rv(rhs)
        if k == "CXXOperatorCallExpr" and strip(sc[0])["referencedDecl"]["name"] == "operator[]" and self.is_region(sc[1]):
            r, i = self.place(sc[1]), self.rv(sc[2])
            if op == "=":
                return "{ let i_ = %s; let v_ = %s; %s.set(i_, v_); }" % (i, val, r)
            return "{ let i_ = %s; let v_ = (%s.get(i_) %s %s); %s.set(i_, v_); }" % (i, r, op[:-1], self.rv(rhs), r)
        if k == "ArraySubscriptExpr" and not self.is_param_array(sc[0]) and parse_type(qtype(strip(sc[0]))).k != "arr":
            bt = parse_type(qtype(sc[0]))
            if bt.k == "ptr" and not bt.a[0].const:
                p, i, r = self.ptr(sc[0]), self.rv(sc[1]), self.region()
                if op == "=":
                    return "{ let p_ = %s; let i_ = %s; let v_ = %s; %s.store(p_, i_, v_); }" % (p, i, val, r)
                return "{ let p_ = %s; let i_ = %s; let v_ = (%s.load(p_, i_) %s %s); %s.store(p_, i_, v_); }" % (
                    p, i, r, op[:-1], self.rv(rhs), r)
            self.fail(n, "store through pointer")
        r = self.assign_ext(n, op, sl, rhs)
        if r is not None:
            return r
        p = self.place(lhs)
        if op == "=":
            return "%s = %s;" % (p, val)
        o = op[:-1]
        if t.k == "dbl":
            return "%s = %s(%s, %s);" % (p, self.DOP[o], p, self.rv(rhs))
        return "%s = %s %s (%s);" % (p, p, o, self.compound_rhs(n, rhs, t))

    def compound_rhs(self, n, rhs, t):
        e = self.rv(rhs)
        rt = self.ty(rhs)
        if rt.k == "bool" and t.k in INT_KINDS:
            return "if %s { 1%s } else { 0%s }" % (e, t.k, t.k)
        if rt.k != t.k and rt.k in INT_KINDS and t.k in INT_KINDS and n["opcode"] not in ("<<=", ">>="):
            l = self.lit(rhs, t)
            return l if l else "(%s) as %s" % (e, t.k)
        return e

    def assign_ext(self, n, op, sl, rhs):
        c = inner(sl)
        if sl.get("kind") == "CXXOperatorCallExpr" and strip(c[0])["referencedDecl"]["name"] == "operator()" and op == "=" \
                and parse_type(qtype(strip(c[1]))).strip().k == "ndview":
            return "{ let i_ = (%s) as i64; let j_ = (%s) as i64; let v_ = %s; %s.put(i_, j_, v_); }" % (self.rv(c[2]), self.rv(c[3]), self.rv(rhs), self.place(c[1]))
        return None

    def is_stream(self, n):
        n = strip(n)
        if n.get("kind") == "CXXOperatorCallExpr":
            nm = strip(inner(n)[0]).get("referencedDecl", {}).get("name")
            t = qtype(n)
            if nm == "operator<<" and ("ostream" in t):
                return True
        return False

    def stmt(self, n):
        k = n.get("kind")
        l = line_of(n)
        if l:
            self.cur_line = l
        ch = inner(n)
        m = getattr(self, "st_" + k, None)
        if m is not None:
            return m(n, ch)
        # expression statement
        c = self.stream_chain(n, "operator<<")
        if c is not None and c[1]:
            return self.writes(c)
        if self.is_stream(n):
            return
        self.expr_stmt(n)

    def expr_stmt(self, n):
        if n.get("castKind") == "ToVoid":
            e = self.with_pre(lambda: self.rv(n))
            if e != "()":
                self.emit(e + ";")
            return
        s = strip(n)
        k = s.get("kind")
        ch = inner(s)
        save, self.pre = self.pre, []
        if k in ("BinaryOperator", "CompoundAssignOperator") and s["opcode"].endswith("=") and s["opcode"] not in ("==", "!=", "<=", ">="):
            if s["opcode"] == "=" and strip(ch[1]).get("kind") == "BinaryOperator" and strip(ch[1]).get("opcode") == "=":
                self.expr_stmt(ch[1])
                fake = dict(s)
                r = self.assign(fake, [ch[0], strip(inner(strip(ch[1]))[0])])
            else:
                r = self.assign(s, ch)
        elif k == "BinaryOperator" and s["opcode"] == ",":
            self.pre = save
            self.expr_stmt(ch[0])
            self.expr_stmt(ch[1])
            return
        elif k == "UnaryOperator" and s.get("opcode") in ("++", "--"):
            p = self.place(ch[0])
            one = "1" + self.ty(s).k
            r = ("%s = %s + %s;" if s["opcode"] == "++" else "%s = %s.wrapping_sub(%s);") % (p, p, one)
        elif k == "CXXThrowExpr":
            self.throw(s)
            self.pre = save
            return
        else:
            e = self.rv(s)
            if e == "()":
                self.pre = save
                return
            t = self.ty(s)
            r = e + ";"
            if not self.is_void(s):
                r = "let _ = %s;" % e
        for p in self.pre:
            self.emit(p)
        self.pre = save
        if r:
            for x in r.split("\n"):
                self.emit(x)

    def is_void(self, s):
        return self.ty(s).k == "void"

    def throw(self, n):
        self.ret_err()
        self.emit("return Err(CmError);")

    st_CXXThrowExpr = lambda self, n, ch: self.throw(n)

    def st_NullStmt(self, n, ch):
        pass

    def st_CompoundStmt(self, n, ch):
        self.emit("{")
        self.ind += 1
        for c in ch:
            self.stmt(c)
        self.ind -= 1
        self.emit("}")

    def block(self, n):
        """Statements of a branch or loop body, without braces."""
        self.ind += 1
        if n.get("kind") == "CompoundStmt":
            for c in inner(n):
                self.stmt(c)
        else:
            self.stmt(n)
        self.ind -= 1

    def with_pre(self, fn):
        save, self.pre = self.pre, []
        r = fn()
        for p in self.pre:
            self.emit(p)
        self.pre = save
        return r

    def st_DeclStmt(self, n, ch):
        for v in ch:
            if v.get("kind") != "VarDecl":
                if v.get("kind") in ("TypedefDecl", "TypeAliasDecl", "UsingDecl", "UsingDirectiveDecl"):
                    continue
                self.fail(v, "declaration")
            self.vardecl(v)

    def vardecl(self, v):
        t = parse_type(qtype(v))
        init = inner(v)
        init = init[-1] if init else None
        if init is not None and self.unwrap(init).get("kind") == "LambdaExpr":
            self.lambdas[v["id"]] = self.unwrap(init)
            return
        nm = ident(v["name"]) if t.k == "ref" and init is not None and self.is_place(init) else self.declare(v)
        if t.k == "ref" and init is not None and self.is_place(init):
            pre = []
            self.hint = "ix_" + nm
            p = self.stable_place(init, pre)
            self.hint = None
            for x in pre:
                self.emit(x)
            self.env[v["id"]] = p
            return
        if t.k in ("ref", "rref"):
            t = t.strip()
        if t.k == "ptr":
            return self.ptrdecl(v, t, nm, init)
        if t.k in ("time", "other"):
            if self.decl_ext(v, t, nm, init):
                return
            self.fail(v, "local of type %s" % qtype(v))
        self.locals[nm] = t
        if self.decl_ext(v, t, nm, init):
            return
        if init is None:
            self.emit("let mut %s: %s = %s;" % (nm, rust_type(t), arb(t)))
            return
        e = self.with_pre(lambda: self.rv(init))
        if t.k in INT_KINDS and self.ty(init).k == "bool":
            e = "if %s { 1 } else { 0 }" % e
        for i, x in enumerate(("let mut %s: %s = %s;" % (nm, rust_type(t), e)).split("\n")):
            self.emit(x)

    def decl_ext(self, v, t, nm, init):
        if t.k == "ndview" and init is not None:
            # a view of an array: the array itself
            c = self.unwrap(init)
            m = strip(inner(c)[0]) if c.get("kind") == "CXXMemberCallExpr" else {}
            if m.get("name") not in ("unchecked", "mutable_unchecked") or not re.search(r"unchecked_(mutable_)?reference<.*, [12]>", qtype(v)):
                self.fail(v, "array view")
            dims = re.search(r", ([12])>", qtype(v)).group(1)
            p = self.place(inner(m)[0])
            self.ret_err()
            self.emit("if !%s.is_%sd() { return Err(CmError); }" % (p, dims))
            self.env[v["id"]] = p
            return True
        if t.k in ("ifile", "ofile"):
            a = inner(self.unwrap(init)) if init is not None else []
            mode = strip(a[1]) if len(a) == 2 else {}
            if len(a) != 2 or mode.get("kind") != "CXXDefaultArgExpr" and mode.get("referencedDecl", {}).get("name") != {"i": "in", "o": "out"}[t.k[0]]:
                self.fail(v, "opening of a file")
            self.emit("let mut %s: %s = %s::open(%s);" % (nm, rust_type(t), rust_type(t), self.with_pre(lambda: self.rv(a[0]))))
            if t.k == "ofile":
                self.written = nm
            return True
        return False

    def ptrdecl(self, v, t, nm, init):
        if t.a[0].k == "cls" and t.a[0].const and self.array_like(init) and self.const_root(init):
            self.env[v["id"]] = ("array", self.array_arg(init, False).lstrip("&"))
            return
        if t.a[0].k != "u64":
            self.fail(v, "pointer to %r" % t.a[0])
        if t.a[0].const and not self.array_like(init):
            b, o = self.with_pre(lambda: self.cptr(init))
            tmp = self.fresh("off")
            self.emit("let %s = %s;" % (tmp, o))
            self.env[v["id"]] = ("cptr", b.lstrip("&"), tmp)
            return
        s = strip(init)
        if s.get("kind") == "ConditionalOperator":
            c, a, b = inner(s)
            if self.is_param_array(a) and self.is_param_array(b):
                tmp = v["name"] + "_sel"
                self.emit("let %s = %s;" % (tmp, self.rv(c)))
                self.env[v["id"]] = ("condarr", tmp, self.array_of(a), self.array_of(b))
                return
        if self.is_param_array(s):
            self.env[v["id"]] = ("array", self.array_of(s))
            return
        e = self.with_pre(lambda: self.ptr(init))
        self.emit("let mut %s: Ptr = %s;" % (nm, e))

    def st_IfStmt(self, n, ch):
        if n.get("hasInit") or n.get("hasVar"):
            self.fail(n, "if with declaration")
        c = self.with_pre(lambda: self.cond(ch[0]))
        for i, x in enumerate(("if %s {" % c).split("\n")):
            self.emit(x)
        self.block(ch[1])
        if len(ch) > 2:
            self.emit("} else {")
            self.block(ch[2])
        self.emit("}")

    def st_ReturnStmt(self, n, ch):
        if self.parent is not None:
            self.fail(n, "return inside a loop of a function without a contract")
        thr = self.f.throws
        if self.f.is_ctor:
            v = self.this
        elif not ch:
            v = self.void_value(self.f) or ("()" if thr else "")
        elif self.f.ret.k in ("ref",):
            v = None  # operators returning *this: the reference itself is not used
            e = strip(ch[0])
            self.emit("return;")
            return
        elif self.f.ret.k == "ptr":
            v = self.with_pre(lambda: self.ptr(ch[0]))
        else:
            v = self.with_pre(lambda: self.ret_value(ch[0]))
        if thr:
            v = "Ok(%s)" % v
        for x in ("return %s;" % v if v else "return;").split("\n"):
            self.emit(x)

    def void_value(self, f):
        """A function that writes a file gives the file."""
        if f.ret.k != "void" or not writes_file(f):
            return None
        return getattr(self, "written", None) or "OFile::none()"

    def ret_value(self, e):
        return self.rv(e)

    def st_BreakStmt(self, n, ch):
        self.emit("break;")

    def st_ContinueStmt(self, n, ch):
        if not self.loops:
            self.fail(n, "continue")
        no, inc = self.loops[-1]
        self.emit("//@loop %d body_end" % no)
        self.emit_inc(inc)
        self.emit("//@loop %d end" % no)
        self.emit("continue;")

    def emit_inc(self, inc):
        if inc is None:
            return
        if callable(inc):
            inc()
        else:
            self.expr_stmt(inc)

    def loop(self, cond, inc, body, pure_true=False):
        self.loopno[0] += 1
        no = self.loopno[0]
        self.emit("//@loop %d before" % no)
        c = "true" if cond is None else self.loop_cond(cond)
        parts = ("while %s" % c).split("\n")
        for x in parts:
            self.emit(x)
        self.emit("//@loop %d spec" % no)
        self.emit("{")
        self.ind += 1
        self.emit("//@loop %d begin" % no)
        self.ind -= 1
        self.loops.append((no, inc))
        if callable(body):
            body()
        else:
            self.block(body)
        self.loops.pop()
        self.ind += 1
        self.emit("//@loop %d body_end" % no)
        self.emit_inc(inc)
        self.emit("//@loop %d end" % no)
        self.ind -= 1
        self.emit("}")
        self.emit("//@loop %d after" % no)

    def loop_cond(self, cond):
        save, self.pre = self.pre, []
        c = self.cond(cond) if not callable(cond) else cond()
        if self.pre:
            raise ExtractionError("loop condition needs a temporary")
        self.pre = save
        return c

    def st_ForStmt(self, n, ch):
        parts = n["inner"]
        init, var, cond, inc, body = [(p if p else None) for p in parts]
        init = init if init and init.get("kind") else None
        cond = cond if cond and cond.get("kind") else None
        inc = inc if inc and inc.get("kind") else None
        scoped = init is not None and init.get("kind") == "DeclStmt"
        if scoped:
            self.emit("{")
            self.ind += 1
        if init is not None:
            if scoped:
                self.stmt(init)
            else:
                self.expr_stmt(init)
        self.loop(cond, inc, body)
        if scoped:
            self.ind -= 1
            self.emit("}")

    def st_WhileStmt(self, n, ch):
        self.loop(ch[0], None, ch[1])

    def st_DoStmt(self, n, ch):
        body, c = ch
        sc = strip(c)
        if (sc.get("kind") == "IntegerLiteral" and int(sc["value"]) == 0) or \
                (sc.get("kind") == "CXXBoolLiteralExpr" and not sc["value"]):
            if not self.has_break(body):
                self.stmt(body)
                return
        # do body while (c): a first-iteration flag keeps the body unduplicated
        t = self.fresh("first")
        self.emit("let mut %s: bool = true;" % t)
        body, c = ch
        self.loop(lambda: "(%s || %s)" % (t, self.cond(c)), None,
                  lambda: (self.emit("    %s = false;" % t), self.block(body)))

    def has_break(self, n):
        if n.get("kind") in ("BreakStmt", "ContinueStmt"):
            return True
        if n.get("kind") in ("ForStmt", "WhileStmt", "DoStmt", "CXXForRangeStmt", "LambdaExpr"):
            return False
        return any(self.has_break(c) for c in inner(n))

    def st_GCCAsmStmt(self, n, ch):
        if ch:
            self.fail(n, "inline assembly with operands")

    def st_CXXForRangeStmt(self, n, ch):
        parts = inner(n)
        rng = var = None
        body = parts[-1]
        for p in parts:
            if p.get("kind") == "DeclStmt":
                v = inner(p)[0]
                if v.get("name", "").startswith("__range"):
                    rng = inner(v)[-1]
                elif not v.get("name", "").startswith("__"):
                    var = v
        self.range_for(n, rng, var, body)

    def range_for(self, n, rng, var, body):
        t = parse_type(qtype(rng)).strip()
        if t.k not in ("vec", "set"):
            self.fail(n, "range-for over %r" % t)
        self.emit("{")
        self.ind += 1
        pre = []
        p = self.stable_place(rng, pre) if self.is_place(rng) else None
        nm = self.declare(var)
        if t.k == "set":
            l = "list_%s" % nm
            pre.append("let %s = %s.list();" % (l, p if p is not None else self.rv(rng)))
            p = l
        for x in pre:
            self.emit(x)
        if p is None:
            p = self.fresh("rng")
            self.emit("let %s = %s;" % (p, self.rv(rng)))
        it = "it_%s" % nm
        self.emit("let mut %s: u64 = 0;" % it)
        self.locals[it] = T("u64")
        vt = parse_type(qtype(var))

        def head():
            self.ind += 1
            if vt.k == "ref" and not vt.a[0].const:
                self.env[var["id"]] = "%s[%s as usize]" % (p, it)
            else:
                self.emit("let %s = %s[%s as usize];" % (nm, p, it))
            self.ind -= 1
            self.block(body)
        self.loop(lambda: "%s < %s.len() as u64" % (it, p), lambda: self.emit("%s = %s + 1u64;" % (it, it)), head)
        self.ind -= 1
        self.emit("}")


# ------------------------------------------------------------- functions
def writes_file(f):
    """f declares an output file"""
    def opens(n):
        return n.get("kind") == "VarDecl" and parse_type(qtype(n)).k == "ofile" or any(opens(c) for c in inner(n) if c)
    return body_of(f.node) is not None and opens(body_of(f.node))


def signature(f, specs):
    """Rust signature of a translated function, without contract."""
    ps = []
    if f.cls and not f.is_ctor and not f.is_static_method:
        ps.append("&mut self" if f.mut_this else "&self")
    shadows = []
    for p, t in zip(f.params, f.ptypes):
        nm = ident(p.get("name") or "_p%d" % len(ps))
        s = t.strip()
        if t.k == "ptr" and s.a[0].k == "u64" and s.a[0].const:
            ps += ["%s: &Vec<u64>" % nm, "%s_off: u64" % nm]
            continue
        if t.k == "ptr" and s.a[0].k == "cls" and s.a[0].const and f.cls is None:
            ps.append("%s: &Vec<%s>" % (nm, s.a[0].a[0]))
            continue
        if t.k == "ptr" and s.a[0].k == "u64" and f.cls is None and f.region_provider() is None:
            ps.append("%s: %sVec<u64>" % (nm, "&mut " if p["id"] in f.mut_params else "&"))
            continue
        if t.k == "ref" and s.k in INT_KINDS + ("bool", "dbl"):
            if p["id"] in f.mut_params:
                ps.append("%s: &mut %s" % (nm, rust_type(s)))
            else:
                ps.append("%s: %s" % (nm, rust_type(s)))
            continue
        if t.k == "rref":
            ps.append("%s: &mut %s" % (nm, rust_type(s)))
            continue
        if t.k == "ref":
            ps.append("%s: %s%s" % (nm, "&mut " if p["id"] in f.mut_params else "&", rust_type(s)))
            continue
        if p["id"] in f.mut_params:
            # assigned by-value parameter: the entry value keeps the name <nm>_0
            ps.append("%s_0: %s" % (nm, rust_type(s)))
            shadows.append(nm)
        else:
            ps.append("%s: %s" % (nm, rust_type(s)))
    if f.mem and f.region_provider() is None:
        ps.append("mem: %sMem" % ("&mut " if f.mem == "w" else "&"))
        if f.cross:
            ps.append("mem2: &Mem")
    if f.is_ctor:
        rt = f.cls
    elif f.ret.k in ("void", "ref"):
        rt = "OFile" if writes_file(f) else None
    else:
        rt = rust_type(f.ret)
    if f.throws:
        rt = "Result<%s, CmError>" % (rt or "()")
    return ps, rt, shadows


def uses_shared(prog, f):
    """f or a function it calls mentions a shared pointer"""
    def mentions(n):
        return n.get("kind") == "MemberExpr" and parse_type(qtype(n)).strip().k == "shared" or any(mentions(c) for c in inner(n) if c)
    seen, todo = set(), [f]
    while todo:
        g = todo.pop()
        if g.qual + g.node["type"]["qualType"] in seen:
            continue
        seen.add(g.qual + g.node["type"]["qualType"])
        b = body_of(g.node)
        if b is None or mentions(b):
            return True
        todo += [prog.funcs[c] for c in g.callees]
    return False


def all_fields(prog, cls):
    """(name, type) of every data member, base classes first."""
    tu, rec = prog.records[cls]
    out = []
    for b in rec.get("bases", []):
        bt = parse_type(b["type"].get("desugaredQualType", b["type"]["qualType"]))
        if bt.k == "cls" and bt.a[0] in prog.records:
            out += all_fields(prog, bt.a[0])
    for c in inner(rec):
        if c.get("kind") == "FieldDecl":
            t = parse_type(qtype(c))
            out.append((c["name"], t))
    return out


def field_type(cls, name, t):
    if (cls, name) in REGION_FIELDS:
        return "Mem"
    return rust_type(t)


def render_struct(prog, cls):
    out = []
    fs = [(n, t) for n, t in all_fields(prog, cls) if t.k != "other"]
    copy = all(t.k in INT_KINDS + ("bool", "dbl", "cls", "ptr") for n, t in fs)
    if copy:
        out.append("#[derive(Clone, Copy)]")
    out.append("pub struct %s {" % cls)
    for n, t in fs:
        out.append("    pub %s: %s," % (ident(n), field_type(cls, n, t.strip())))
    out.append("}")
    out.append("#[verifier::external_body]")
    vs = ["r.%s@.len() == 0" % ident(n) for n, t in fs if t.strip().k == "vec"]     # members of class type are constructed
    out.append("pub fn arb_%s() -> %s%s { unimplemented!() }" % (cls, "(r: %s)" % cls if vs else cls, " ensures %s," % ", ".join(vs) if vs else ""))
    out.append(RESIZE.replace("CLS", cls))
    return out


# vector<CLS>::resize: what new elements hold is left open
RESIZE = """pub fn vec_resize_CLS(v: &mut Vec<CLS>, n: u64)
    ensures final(v)@.len() == n, forall|k: int| 0 <= k < n && k < old(v)@.len() ==> #[trigger] final(v)@[k] == old(v)@[k],
{
    while v.len() > n as usize
        invariant v@.len() <= old(v)@.len(), v@.len() >= n || v@.len() == old(v)@.len(),
            forall|k: int| 0 <= k < v@.len() ==> #[trigger] v@[k] == old(v)@[k],
        decreases v@.len(),
    { let _ = v.pop(); }
    while v.len() < n as usize
        invariant v@.len() <= n, forall|k: int| 0 <= k < v@.len() && k < old(v)@.len() ==> #[trigger] v@[k] == old(v)@[k],
            v@.len() >= old(v)@.len() || v@.len() == n,
        decreases n - v@.len(),
    { v.push(arb_CLS()); }
}"""


def render_ctor_body(em, f):
    prog = f.prog
    inits = {}
    deleg = None
    for c in inner(f.node):
        if c["kind"] == "CXXCtorInitializer":
            if "anyInit" in c:
                inits[c["anyInit"]["name"]] = c
            elif "baseInit" in c:
                inits["<base>"] = c
            else:
                deleg = c
    em.emit("let mut this_: %s;" % f.cls)
    if deleg is not None:
        e = strip(inner(deleg)[0])
        target = ctor_target(f, e)
        if target is not None and target.cls == f.cls:
            em.lines.pop()
            em.emit("let mut this_: %s = %s;" % (f.cls, em.call(e, target, None, inner(e))))
            return
    em.lines.pop()
    vals = []
    for n, t in all_fields(prog, f.cls):
        if t.k == "other":
            continue
        tmp = "f_%s" % n
        c = inits.get(n)
        e = None
        if c is not None and inner(c):
            x = inner(c)[0]
            if strip(x).get("kind") == "CXXDefaultInitExpr":
                x = field_init(prog, f.cls, n)
            if t.k == "time":
                e = "clock_now()"
            elif x is None:
                e = None
            elif t.k == "ptr":
                e = em.with_pre(lambda: em.ptr(x))
            elif t.k == "ref":
                d = strip(x).get("referencedDecl", {})
                if d.get("kind") != "ParmVarDecl":
                    em.fail(x, "reference member bound to something else than a parameter")
                e = "alias(&*%s)" % em.place(x) if t.strip().k != "func" else "*" + em.place(x)
            else:
                e = em.with_pre(lambda: em.rv(x))
        elif n == "request_size":
            # base-class constructor CliqueOperator(): request_size = 0 (rendered from its body)
            e = base_init(prog, f.cls, n)
        if (f.cls, n) in REGION_FIELDS:
            e = "Mem::empty()"
        if e is None:
            e = arb(t.strip())
        for x in ("let %s = %s;" % (tmp, e)).split("\n"):
            em.emit(x)
        vals.append("%s: %s" % (ident(n), tmp))
    em.emit("let mut this_ = %s { %s };" % (f.cls, ", ".join(vals)))


def field_init(prog, cls, field):
    """Default member initializer, or None."""
    tu, rec = prog.records[cls]
    for c in inner(rec):
        if c.get("kind") == "FieldDecl" and c.get("name") == field and c.get("hasInClassInitializer") and inner(c):
            return inner(c)[-1]
    return None


def base_init(prog, cls, field):
    """Value a base-class default constructor gives to a field, or None."""
    tu, rec = prog.records[cls]
    for b in rec.get("bases", []):
        bt = parse_type(b["type"].get("desugaredQualType", b["type"]["qualType"]))
        for g in prog.funcs.values():
            if g.is_ctor and g.cls == bt.a[0] and not g.params:
                for c in inner(g.node):
                    if c["kind"] == "CXXCtorInitializer" and c.get("anyInit", {}).get("name") == field:
                        return Emitter(g).rv(inner(c)[0])
                for s in inner(body_of(g.node)):
                    if s.get("kind") == "BinaryOperator" and s.get("opcode") == "=":
                        l, r = inner(s)
                        if strip(l).get("name") == field:
                            return Emitter(g).rv(r)
    return None


def render_default_ctor(prog, cls):
    """Implicit default constructor of an operator class (heur, dfs objects)."""
    vals = []
    for n, t in all_fields(prog, cls):
        e = base_init(prog, cls, n)
        vals.append("%s: %s" % (ident(n), e if e is not None else arb(t.strip())))
    return "%s { %s }" % (cls, ", ".join(vals))
