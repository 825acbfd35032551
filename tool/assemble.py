"""Build one Verus crate (a 'unit') from the repository's sources and contracts."""
import os
import re
from cppast import TU, ExtractionError, line_of, file_of, body_of, qtype
from translate import Program, parse_type, inner, strip
from specs import parse_spec
import pyfront
import emit as E

HERE = os.path.dirname(os.path.abspath(__file__))
SPECDIR = os.path.join(os.path.dirname(HERE), "spec")


def const_eval(n, consts=None):
    n0 = n
    n = strip(n)
    k = n.get("kind")
    ch = inner(n)
    if k == "IntegerLiteral":
        return int(n["value"])
    if k == "BinaryOperator":
        a, b = const_eval(ch[0]), const_eval(ch[1])
        return {"*": a * b, "+": a + b, "-": a - b, "<<": a << b if n["opcode"] == "<<" else 0,
                "/": a // b if b else 0}[n["opcode"]]
    if k == "UnaryExprOrTypeTraitExpr" and n.get("name") == "sizeof":
        t = parse_type(n.get("argType", {}).get("desugaredQualType", n.get("argType", {}).get("qualType", "")))
        return {"u64": 8, "u32": 4, "i32": 4}[t.k]
    if k == "UnaryOperator" and n["opcode"] == "~":
        return (~const_eval(ch[0])) % 2**64
    if k == "UnaryOperator" and n["opcode"] == "-":
        return -const_eval(ch[0])
    raise ExtractionError("constant expression not evaluated")


def local_decls(n, out):
    if n.get("kind") == "VarDecl":
        out.append(n)
    if n.get("kind") == "LambdaExpr":
        return out
    for c in inner(n):
        local_decls(c, out)
    return out


def canonical_env(f, spec):
    """Map declaration ids to the names the contract uses."""
    env = {}
    ren = {}
    if spec.params is not None:
        if len(spec.params) != len(f.params):
            raise ExtractionError("%s has %d parameters, contract has %d" % (f.spec_name(), len(f.params), len(spec.params)))
        for p, n in zip(f.params, spec.params):
            if p.get("name") != n:
                ren[p["id"]] = n
    if spec.locals:
        decls = local_decls(body_of(f.node), [])
        have = {d["name"] for d in decls}
        want = {n for _, n in spec.locals}
        used = set()
        for t, n in spec.locals:
            if n in have:
                continue
            cands = [d for d in decls if d["id"] not in used and d["name"] not in want
                     and E.rust_type(parse_type(qtype(d)).strip()) == t]
            if cands:
                ren[cands[0]["id"]] = n
                used.add(cands[0]["id"])
    return ren


def rename(f, ren):
    """Rename declarations in the AST of f (in place, idempotent)."""
    if not ren:
        return

    def go(n):
        if n.get("kind") in ("VarDecl", "ParmVarDecl") and n.get("id") in ren:
            n["name"] = ren[n["id"]]
        rd = n.get("referencedDecl")
        if rd and rd.get("id") in ren:
            rd["name"] = ren[rd["id"]]
        for c in inner(n):
            go(c)
    go(f.node)


def indent(text, n):
    return ["    " * n + l for l in text.rstrip().split("\n") if l.strip()]


class Unit:
    def __init__(self, repo, name, tus, spec_files, verify, prelude=("prelude.rs",), extra=(), tu_cache=None, emitter=None,
                 stub=(), std=None, py=(), bind=(), subst=None):
        self.name = name
        self.repo = repo
        self.spec_files = spec_files
        self.subst = subst or {}
        self.libs, self.specs = [], {}
        self.pyclasses, self.pyenums = {}, {}
        for sf in spec_files:
            l, fns = self.parse(sf)
            self.pyclasses.update(l.classes)
            self.pyenums.update(l.enums)
            self.libs += [(sf, x) for x in l]
            for k, v in fns.items():
                if k in self.specs:
                    raise ExtractionError("duplicate contract " + k)
                self.specs[k] = v
        cache = tu_cache if tu_cache is not None else {}
        self.tus = []
        for t in tus:
            if t not in cache:
                cache[t] = TU(repo, t, extra, std=std)
            self.tus.append(cache[t])
        self.prog = Program(self.tus, self.specs)
        if py:
            self.pymod = pyfront.Module(repo, py)
            for t in bind:          # sources read for their definitions of Python names only
                if t not in cache:
                    cache[t] = TU(repo, t, extra, std=std)
            self.bindings = pyfront.Bindings([cache[t] for t in list(tus) + list(bind)])
        self.own = set(spec_files)  # spec files whose lemmas are proved here
        if isinstance(verify, str):   # all contracts of these files
            self.own = set(verify.split())
            verify = {k for v in verify.split() for k in self.parse(v)[1]}
        self.verify = verify        # spec names to verify here, or None for all with a body
        self.stub = set(stub)       # functions whose body could not be rendered: undecided
        self.prelude = prelude
        self.Emitter = emitter or E.Emitter
        self.errors = {}            # spec name -> why it could not be rendered
        self.anchors_missed = []
        self.lines = []
        self.linemap = []           # (function spec name or None, C++ file, C++ line)
        self.bodies = []            # functions whose bodies are in this unit
        self.externals = []         # functions present by contract only
        self.inlined = {}
        self.dropped = set()    # (function, local): see held
        self.probe = False          # add assertions that only a contradiction could discharge

    def parse(self, sf):
        """A file of contracts; one for several classes is named file:class and has the names of one put in."""
        path = os.path.join(SPECDIR, sf.split(":")[0])
        text = open(path).read()
        if ":" in sf:
            for k, v in self.subst.items():
                text = re.sub(r"\b%s\b" % k, v, text)
        return parse_spec(path, text)

    def put(self, text, fn=None, cfile=None, cline=None):
        for l in text.split("\n"):
            self.lines.append(l)
            self.linemap.append((fn, cfile, cline))

    def render(self):
        self.put("#![allow(unused_imports, unused_mut, unused_variables, unused_assignments, non_snake_case, non_camel_case_types, dead_code, unused_parens, unused_braces, unused_must_use, unused_labels, unreachable_code)]")
        self.put("use vstd::prelude::*;\nuse vstd::arithmetic::div_mod::*;\nuse vstd::arithmetic::mul::*;\nuse vstd::set_lib::*;\nuse vstd::multiset::*;\nuse vstd::seq_lib::*;\nverus! {\nglobal size_of usize == 8;")
        if self.probe:
            self.put("pub uninterp spec fn vprobe(n: int) -> bool;")
        for p in self.prelude:
            self.put(open(os.path.join(SPECDIR, p)).read(), "lib:" + p)
        seen = {}
        for tu in self.tus:
            for nm, n in tu.consts.items():
                if nm in seen:
                    continue
                t = parse_type(qtype(n))
                if t.k not in E.INT_KINDS:
                    continue
                try:
                    v = const_eval(inner(n)[-1])
                except (ExtractionError, KeyError, IndexError):
                    continue
                seen[nm] = v
                self.put("pub const %s: %s = %d;" % (nm, t.k, v % 2**64 if t.k == "u64" else v), None, file_of(n), line_of(n))
            for q, e in tu.enums.items():
                v = -1
                for c in inner(e):
                    if c.get("kind") != "EnumConstantDecl" or c["name"] in seen:
                        continue
                    v = const_eval(inner(c)[0]) if inner(c) else v + 1
                    seen[c["name"]] = v
                    self.put("pub const %s: i8 = %d;" % (c["name"], v), None, file_of(e), line_of(e))
        structs = self.struct_order()
        for cls in structs:
            for l in E.render_struct(self.prog, cls):
                self.put(l)
        for sf, x in self.libs:
            if sf not in self.own:
                # lemmas of another unit, proved there
                x = re.sub(r"(?m)^(?=(pub )?(broadcast )?proof fn (?!\w+\([^{;]*\bby\())", "#[verifier::external_body] //@imported\n", x)
            self.put(x, "lib:" + sf)
        # functions
        for name, spec in self.specs.items():
            if spec.sig:
                self.render_py(name, spec, (self.verify is None or name in self.verify) and name not in self.stub and not spec.trusted)
                continue
            f = self.prog.by_spec.get(name)
            if f is None:
                if self.verify is None or name in self.verify:
                    self.errors[name] = "function not found in the source"
                continue
            want = (self.verify is None or name in self.verify) and name not in self.stub and not spec.trusted
            self.render_fn(f, spec, want)
        self.put("} // verus!\nfn main() {}")
        return "\n".join(self.lines)

    def struct_order(self):
        need = []

        def add(cls):
            if cls in need or cls not in self.prog.records:
                return
            for n, t in E.all_fields(self.prog, cls):
                walk(t)
            need.append(cls)

        def walk(t):
            t = t.strip()
            if t.k == "cls":
                add(t.a[0])
            elif t.k in ("vec", "pair", "arr", "ptr", "shared"):
                for x in t.a:
                    if hasattr(x, "k"):
                        walk(x)
        for name in self.specs:
            f = self.prog.by_spec.get(name)
            if f is None:
                continue
            if f.cls:
                add(f.cls)
            for t in f.ptypes + [f.ret]:
                walk(t)
            for d in local_decls(body_of(f.node), []):
                walk(parse_type(qtype(d)))
        return need

    def pyspec(self, cls, name):
        s = self.specs.get("%s::%s" % (cls, name))
        if s is None or not s.sig:
            raise ExtractionError("no contract for %s.%s" % (cls, name))
        return pyfront.Sig(s.sig)

    def render_py(self, name, spec, want):
        body, f = None, None
        if want:
            try:
                f = pyfront.translate(self, name, spec)
                body = self.attach(f, spec, f)
            except (ExtractionError, KeyError, IndexError, AttributeError, TypeError, ValueError) as e:
                self.errors[name] = "%s: %s" % (type(e).__name__, e)
                body = None
        sig = pyfront.Sig(spec.sig)
        cls, meth = name.split("::") if "::" in name else (None, name)
        if cls:
            self.put("impl %s {" % cls, name)
        for a in spec.attrs:
            self.put(a, name)
        if body is None:
            self.put("#[verifier::external_body]", name)
            self.externals.append(name)
        else:
            self.bodies.append(name)
        where = (f.file, f.line) if f else (None, None)
        self.put("pub fn %s(%s) -> (r: %s)" % (meth, ", ".join(sig.params), sig.rett), name, *where)
        for c in ("requires", "ensures", "decreases"):
            if spec.clauses[c].strip() and not (c == "decreases" and body is None):
                self.put("    " + c, name)
                for l in indent(spec.clauses[c], 2):
                    self.put(l, name, *where)
                if not spec.clauses[c].rstrip().endswith(","):
                    self.lines[-1] += ","
        self.put("{", name)
        if body is None:
            self.put("    unimplemented!()", name)
        else:
            for l, cl in body:
                for x in l.split("\n"):
                    self.put(x, name, f.file, cl)
        self.put("}", name)
        if cls:
            self.put("}", name)

    def render_fn(self, f, spec, want):
        name = f.spec_name()
        try:
            rename(f, canonical_env(f, spec))
        except ExtractionError as e:
            self.errors[name] = str(e)
            return
        body = None
        if want:
            try:
                body = self.render_body(f, spec)
            except (ExtractionError, KeyError, IndexError, AttributeError, TypeError, ValueError) as e:
                self.errors[name] = "%s: %s" % (type(e).__name__, e)
                body = None
        try:
            ps, rt, shadows = E.signature(f, self.specs)
        except (ExtractionError, KeyError) as e:
            self.errors[name] = "%s: %s" % (type(e).__name__, e)
            return
        # what is only read is the same before and after
        read = "|".join(["self"] * ("&self" in ps) + [p.split(":")[0] for p in ps if re.match(r"^\w+: &(?!mut)", p)])

        def same(x):
            return re.sub(r"\b(?:old|final)\((%s)\)" % read, r"\1", x) if read else x
        if f.cls:
            self.put("impl %s {" % f.cls, name)
        for a in spec.attrs:
            self.put(a, name)
        if body is None:
            self.put("#[verifier::external_body]", name)
            (self.externals).append(name)
        else:
            self.bodies.append(name)
        self.put("pub fn %s(%s)%s" % (f.rust_name(), ", ".join(ps), " -> (r: %s)" % rt if rt else ""), name, f.file, f.line)
        for c in ("requires", "ensures", "decreases"):
            if c == "decreases" and body is None:
                continue
            if spec.clauses[c].strip():
                self.put("    " + c, name)
                for l in indent(spec.clauses[c], 2):
                    l = same(l)
                    for sh in shadows:
                        l = re.sub(r"(?<![\w.])%s(?!\w)" % sh, sh + "_0", l)
                    self.put(l, name, f.file, f.line)
                if not spec.clauses[c].rstrip().endswith(","):
                    self.lines[-1] += ","
        self.put("{", name)
        if body is None:
            self.put("    unimplemented!()", name)
        else:
            for s in shadows:
                self.put("    let mut %s = %s_0;" % (s, s), name)
            plain = [q.get("name") for q, t in zip(f.params, f.ptypes) if q.get("name") and q["name"] not in shadows]
            for l, cl in body:
                for x in same(l).split("\n"):
                    if "_0" in x:
                        for q in plain:
                            x = re.sub(r"(?<![\w.])%s_0(?!\w)" % q, q, x)
                    self.put(x, name, f.file, cl)
        self.put("}", name)
        if f.cls:
            self.put("}", name)

    def render_body(self, f, spec):
        em = self.Emitter(f)
        em.wrapping = "wrapping_sub" in spec.opts
        if f.is_ctor:
            E.render_ctor_body(em, f)
        em.emit("//@fn begin")
        stmts = inner(body_of(f.node))
        for i, s in enumerate(stmts):
            if i == len(stmts) - 1 and s.get("kind") == "ReturnStmt":
                em.emit("//@fn end")
            em.stmt(s)
        if not stmts or stmts[-1].get("kind") != "ReturnStmt":
            em.emit("//@fn end")
        if f.is_ctor:
            em.emit("Ok(this_)" if f.throws else "this_")
        elif f.ret.k == "void" and em.void_value(f):
            em.emit(("Ok(%s)" if f.throws else "%s") % em.void_value(f))
        elif f.throws and f.ret.k == "void":
            em.emit("Ok(())")
        elif f.ret.k not in ("void", "ref") and stmts and not em.returns(stmts[-1]):
            em.emit("proof { assert(false); }")
            em.emit("vstd::pervasive::unreached()")
        if em.inlined:
            self.inlined[f.spec_name()] = list(em.inlined)
        return self.attach(f, spec, em)

    def attach(self, f, spec, em):
        lines = []
        for l, cl in em.lines:
            for x in l.split("\n"):
                lines.append((x, cl))
        nloops = em.loopno[0]
        if spec.loops and max(spec.loops) != nloops and "loops_any" not in spec.opts:
            raise ExtractionError("%s has %d loops, contract covers %d" % (f.spec_name(), nloops, max(spec.loops)))
        if not spec.loops and nloops and "loops_any" not in spec.opts:
            raise ExtractionError("%s has %d loops, contract covers none" % (f.spec_name(), nloops))
        ins = {}   # line index -> list of text to insert before it

        def add(i, text):
            ins.setdefault(i, []).append(text)
        marks = {}
        for i, (l, cl) in enumerate(lines):
            m = re.match(r"^\s*//@(loop (\d+)|fn) (\w+)$", l)
            if m:
                key = ("loop %s" % m.group(2) if m.group(2) else "fn", m.group(3))
                marks.setdefault(key, []).append(i)
        held = self.held(f, spec, lines, marks)
        for k, sp in spec.loops.items():
            pos = marks.get(("loop %d" % k, "spec"))
            if not pos:
                continue
            t = []
            if sp.get("invariant_except_break", "").strip():
                # `while c {` -> `loop { if !(c) { break; }`: the exit sees the state after c
                b = marks[("loop %d" % k, "before")][0]
                w = "\n".join(lines[i][0] for i in range(b + 1, pos[0]))
                cnd = re.match(r"^\s*while\s(.*)$", w, re.S).group(1)
                for i in range(b + 1, pos[0]):
                    lines[i] = ("loop" if i == b + 1 else "", lines[i][1])
                j = marks[("loop %d" % k, "begin")][0]
                add(j, "if !(%s) { break; }" % cnd)
            for d, w in (("invariant_except_break", "invariant_except_break"), ("invariant", "invariant"),
                         ("loop_ensures", "ensures"), ("loop_decreases", "decreases")):
                kept = held.get(k, []) if d == "invariant" else []
                if sp.get(d, "").strip() or kept:
                    x = sp.get(d, "").rstrip()
                    if kept:
                        x = (x + ("," if x and not x.endswith(",") else "") + "\n" + "\n".join(kept)).lstrip("\n")
                        t.append("    " + w)
                        t += indent(x, 2)
                        continue
                    t.append("    " + w)
                    t += indent(x, 2)
                    if not x.endswith(","):
                        t[-1] += ","
            add(pos[0], "\n".join(t))
        ats = list(spec.ats)
        if self.probe:
            # nothing is known of vprobe: one failed probe says nothing about the next
            ats.append(("begin", "proof { assert(vprobe(0)); } //@probe %s" % f.spec_name()))
            ats += [("loop %d begin" % k, "proof { assert(vprobe(%d)); } //@probe %s loop %d" % (k, f.spec_name(), k)) for k in range(1, nloops + 1)]
        for arg, text in ats:
            m = re.match(r"^(begin|end)$", arg)
            if m:
                for i in marks.get(("fn", arg), []):
                    add(i, text)
                continue
            m = re.match(r"^loop (\d+) (\w+)$", arg)
            if m:
                ps = marks.get(("loop " + m.group(1), m.group(2)), [])
                if not ps:
                    self.anchors_missed.append((f.spec_name(), arg))
                for i in ps:
                    add(i, text)
                continue
            m = re.match(r"^(before|after) /(.*)/\s*(\d+|all)?$", arg)
            if not m:
                raise ExtractionError("bad anchor " + arg)
            hits = [i for i, (l, cl) in enumerate(lines) if not l.strip().startswith("//@") and re.search(m.group(2), l)]
            if m.group(3) == "all":
                sel = hits
            else:
                nth = int(m.group(3) or 1)
                sel = hits[nth - 1:nth]
            if not sel:
                self.anchors_missed.append((f.spec_name(), arg))
            for i in sel:
                if m.group(1) == "before":
                    add(i, text)
                else:
                    add(self.stmt_end(lines, i) + 1, text)
        out = []
        for i, (l, cl) in enumerate(lines):
            for t in ins.get(i, []):
                for x in t.split("\n"):
                    out.append((x, cl))
            out.append((l, cl))
        for t in ins.get(len(lines), []):
            for x in t.split("\n"):
                out.append((x, lines[-1][1]))
        return out

    def held(self, f, spec, lines, marks):
        """Loops are proved on their own. A local the contract does not know and that is never changed:
        that it still is what it was set to is tried as an invariant, and left out if it is none."""
        texts = [x for sp in spec.loops.values() for x in sp.values()] + [t for _, t in spec.ats]

        def known(n):
            # a text that binds the name itself means something else by it
            return any(re.search(r"(?<![\w.])%s\b" % n, t) and not re.search(r"let (ghost )?(mut )?%s\b|[|,] ?%s: " % (n, n), t) for t in texts)
        out = {}
        depth, at = 0, []
        for l, cl in lines:
            at.append(depth)
            if not l.strip().startswith("//"):
                depth += l.count("{") - l.count("}")
        for i, (l, cl) in enumerate(lines):
            m = re.match(r"^\s*let (?:mut )?([a-z]\w*): (u64|i64|i32|bool) = (.*);$", l) or re.match(r"^\s*let (ix_\w+) = (addr_of)\(&[^,]*, (.*)\);$", l)
            m = None if m and re.search(r"\d_$", m.group(1)) else m
            if not m or (f.spec_name(), m.group(1)) in self.dropped or known(m.group(1)):
                continue
            name, ty, e = m.groups()
            if any(re.search(r"(?<![\w.])%s\s*=[^=]|&mut %s\b|let (mut )?%s\b" % (name, name, name), x) for j, (x, c) in enumerate(lines) if j != i):
                continue
            e = re.sub(r"\[(\d+)usize\]", r"@[\1]", re.sub(r"\[\(?(\w+)\)? as usize\]", r"@[\1 as int]", e)).replace(".len()", "@.len()")
            if not re.match(r"^[\w\s.@\[\]()+*/%<>=!&|-]*$", e) or re.search(r"(?<!\.len)(?<=\w)\(|\[[^\]]* as usize|\bas i\d|&mut|\{", e) or not re.search(r"[a-z]", e):
                continue
            for k in spec.loops:
                b = marks.get(("loop %d" % k, "before"), [None])[0]
                if b is not None and b > i and min(at[i + 1:b + 1]) >= at[i]:
                    out.setdefault(k, []).append("%s%s == (%s), //@held %s %s" % (name, "" if ty == "bool" else " as int", e, f.spec_name(), name))
        return out

    @staticmethod
    def stmt_end(lines, i):
        depth = 0
        j = i
        while j < len(lines):
            s = lines[j][0]
            depth += s.count("{") + s.count("(") - s.count("}") - s.count(")")
            if depth <= 0:
                return j
            j += 1
        return i


if __name__ == "__main__":
    import sys
    import units
    repo = os.environ.get("VERIF_REPO", "/repo")
    u = units.make(repo, sys.argv[1])
    txt = u.render()
    out = sys.argv[2] if len(sys.argv) > 2 else "/tmp/x/%s.rs" % u.name
    open(out, "w").write(txt)
    for k, v in u.errors.items():
        print("ERROR", k, v)
    for k in u.anchors_missed:
        print("ANCHOR", k)
    print("bodies:", " ".join(u.bodies))
    print("inlined:", u.inlined)
