"""Contract files.

A .spec file holds contracts, loop invariants and proof hints for functions of
the repository, by name.  Syntax (directives start with '@' in column 0):

    @lib                         raw Verus text: spec functions, lemmas
    @fn Class::name(p1, p2)      canonical parameter names, in order
    @sig (&self, x: u64) -> u64  makes it the contract of a Python method
    @class Name field: type; ..  what instances of a Python class hold
    @enum Name A(type); B(type)  a value of one of several types
    @locals u64 a, u64 b         canonical names of locals the hints mention
    @attr #[verifier::...]
    @requires / @ensures / @decreases / @recommends
    @loop k                      k-th loop of the body (after inlining), then
    @invariant / @invariant_except_break / @loop_ensures / @loop_decreases
    @at before|after|begin|end|loop k (before|begin|body_end|end|after) [/re/ [n]]
"""
import re


class SpecError(Exception):
    pass


class FnSpec:
    def __init__(self, name, params, src):
        self.name, self.params, self.src = name, params, src
        self.locals = []
        self.attrs = []
        self.clauses = {"requires": "", "ensures": "", "decreases": "", "recommends": ""}
        self.loops = {}
        self.ats = []
        self.ret = "r"
        self.trusted = None
        self.sig = None             # of a Python method
        self.opts = set()


class Libs(list):
    """Texts of specification functions and lemmas, with the Python classes and unions declared along with them"""

    def __init__(self):
        list.__init__(self)
        self.classes, self.enums = {}, {}


def parse_spec(path, text=None):
    text = text if text is not None else open(path).read()
    libs, fns = Libs(), {}
    cur = None
    buf = None

    def sink_lib(t):
        libs.append(t)
    sink = None
    pending = []

    def flush():
        if sink is not None:
            sink("\n".join(pending))
    loop = None
    for ln, line in enumerate(text.split("\n"), 1):
        if not line.startswith("@"):
            if line.startswith("#!"):
                continue
            pending.append(line)
            continue
        flush()
        pending = []
        sink = None
        m = re.match(r"^@(\w+)\s*(.*)$", line)
        d, arg = m.group(1), m.group(2).strip()
        if d == "lib":
            sink = sink_lib
        elif d == "fn":
            m = re.match(r"^([\w:]+)\s*(?:\(([^)]*)\))?$", arg)
            if not m:
                raise SpecError("%s:%d: %s" % (path, ln, line))
            ps = None if m.group(2) is None else [x.strip() for x in m.group(2).split(",") if x.strip()]
            cur = FnSpec(m.group(1), ps, "%s:%d" % (path, ln))
            if m.group(1) in fns:
                raise SpecError("duplicate " + m.group(1))
            fns[m.group(1)] = cur
            loop = None
        elif d == "class":
            nm, rest = arg.split(" ", 1)
            libs.classes[nm] = dict([x.strip() for x in f.split(":", 1)] for f in rest.split(";"))
            libs.append("pub struct %s { %s }" % (nm, ", ".join("pub %s: %s" % f for f in libs.classes[nm].items())))
        elif d == "enum":
            nm, rest = arg.split(" ", 1)
            libs.enums[nm] = [(v.strip().split("(", 1)[0], v.strip().split("(", 1)[1][:-1]) for v in rest.split(";")]
            libs.append("pub enum %s { %s }" % (nm, ", ".join("%s(%s)" % v for v in libs.enums[nm])))
        elif d == "sig":
            cur.sig = arg
        elif d == "locals":
            for x in arg.split(","):
                t, n = x.strip().rsplit(" ", 1)
                cur.locals.append((t, n))
        elif d == "attr":
            cur.attrs.append(arg)
        elif d == "opt":
            cur.opts.add(arg)
        elif d == "trusted":
            cur.trusted = arg or "trusted"
        elif d in ("requires", "ensures", "decreases", "recommends"):
            def mk(c, d):
                def s(t):
                    c.clauses[d] += t + "\n"
                return s
            sink = mk(cur, d)
            if arg:
                pending.append(arg)
        elif d == "loop":
            loop = int(arg)
            cur.loops[loop] = {}
        elif d in ("invariant", "invariant_except_break", "loop_ensures", "loop_decreases", "loop_isolation"):
            def mk2(c, l, d):
                def s(t):
                    c.loops[l][d] = c.loops[l].get(d, "") + t + "\n"
                return s
            sink = mk2(cur, loop, d)
            if arg:
                pending.append(arg)
        elif d == "at":
            def mk3(c, arg):
                def s(t):
                    c.ats.append((arg, t))
                return s
            sink = mk3(cur, arg)
        else:
            raise SpecError("%s:%d: unknown directive %s" % (path, ln, d))
    flush()
    return libs, fns
