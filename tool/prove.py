"""Render a unit from the current sources, run Verus on it, and map what it says back to functions."""
import json
import os
import re
import subprocess
import time
import units
from cppast import ExtractionError
from specs import SpecError

VERUS = "/usr/local/bin/verus"


class UnitResult:
    def __init__(self, name):
        self.name = name
        self.failed = {}        # function -> list of (message, C++ location)
        self.undecided = {}     # function (or '*') -> why
        self.verified = 0
        self.errors = 0
        self.bodies = []
        self.externals = []
        self.trusted = []
        self.solver_ms = 0
        self.fn_ms = {}
        self.probes = 0
        self.probes_hit = 0
        self.vacuous = []
        self.inlined = {}
        self.cmd = ""
        self.wall = 0.0
        self.imported = 0       # lemmas taken from the unit that proves them

    def ok(self):
        return not self.failed and not self.undecided


def run_verus(text, path, threads, rlimit, extra=(), timeout=600):
    with open(path, "w") as f:
        f.write(text)
    cmd = [VERUS, path, "--output-json", "--error-format=json", "--time-expanded", "--num-threads", str(threads), "--rlimit", str(rlimit),
           "--no-report-long-running"] + list(extra)
    e = dict(os.environ)
    e["PATH"] = "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=e, cwd=os.path.dirname(path))
    except subprocess.TimeoutExpired:
        return cmd, None, []
    try:
        js = json.loads(p.stdout.decode() or "{}")
    except ValueError:
        js = {}
    msgs = []
    for l in p.stderr.decode(errors="replace").split("\n"):
        if l.startswith("{"):
            try:
                msgs.append(json.loads(l))
            except ValueError:
                pass
    return cmd, js, msgs


VERIFICATION = ("postcondition not satisfied", "precondition not satisfied", "assertion failed", "invariant not satisfied",
                "possible arithmetic underflow/overflow", "decreases not satisfied", "possible division by zero", "recommendation not met",
                "loop invariant", "possible bit shift", "unwrap", "termination", "loop ensures not satisfied", "could not prove termination")
RESOURCE = ("Resource limit", "rlimit", "timed out", "solver")


def where(u, spans):
    prim = [s for s in spans if s.get("is_primary")] or spans
    for s in prim + spans:
        ln = s["line_start"] - 1
        if 0 <= ln < len(u.linemap) and u.linemap[ln][0]:
            return u.linemap[ln], u.lines[ln].strip()
    return None, ""


def text_of(u, m):
    out = m.get("message", "")
    for s in m.get("spans", []):
        ln = s["line_start"] - 1
        if 0 <= ln < len(u.lines):
            out += " | %s%s" % ((s.get("label") or "") + ": " if s.get("label") else "", u.lines[ln].strip()[:200])
    return out


def prove(repo, name, work, threads=4, rlimit=None, probe=True, timeout=500, smt_seed=None, only=None):
    t0 = time.time()
    r = UnitResult(name)
    d = units.UNITS[name]
    rlimit = rlimit or d.get("rlimit", 30)
    stub, cache, dropped = set(), {}, set()
    extra = ["--smt-option", "smt.random_seed=%d" % smt_seed] if smt_seed else []
    u = None
    for attempt in range(8):
        try:
            u = units.make(repo, name, cache, stub)
            u.dropped = dropped
            txt = u.render()
        except (ExtractionError, SpecError, KeyError, IndexError, AttributeError, TypeError, ValueError, OSError) as e:
            r.undecided["*"] = "the sources could not be translated: %s: %s" % (type(e).__name__, str(e)[:300])
            r.wall = time.time() - t0
            return r
        path = os.path.join(work, "%s_%d.rs" % (re.sub(r"\W", "_", name), attempt))
        cmd, js, msgs = run_verus(txt, path, threads, rlimit, extra, timeout)
        r.cmd = " ".join(cmd).replace(work, "<scratch>")
        if js is None:
            r.undecided["*"] = "the verifier ran out of time"
            break
        # locals tried as unchanged that are not
        no = {tuple(h) for m in msgs if m.get("level") == "error" for sp in m.get("spans", []) for h in re.findall(r"//@held (\S+) (\S+)$", u.lines[sp["line_start"] - 1] if 0 < sp["line_start"] <= len(u.lines) else "")}
        if no - dropped:
            dropped |= no
            continue
        comp = [m for m in msgs if m.get("level") == "error" and m.get("spans") and not any(v in m["message"] for v in VERIFICATION)
                and not any(v in m["message"] for v in RESOURCE)]
        if "verified" in js.get("verification-results", {}) and not js["verification-results"].get("encountered-vir-error") and not comp:
            break
        # the translation of some function does not type check: leave it out, undecided
        bad = set()
        for m in comp:
            w, _ = where(u, m["spans"])
            if w and not w[0].startswith("lib:") and w[0] not in stub and w[0] in u.bodies:
                bad.add(w[0])
                r.undecided[w[0]] = "translation rejected by the verifier: " + text_of(u, m)[:300]
        if not bad:
            r.undecided["*"] = "the verifier rejected the unit: " + "; ".join(text_of(u, m)[:200] for m in comp[:2])
            break
        stub |= bad
    for k, v in u.errors.items():
        r.undecided[k] = v
    r.bodies, r.externals, r.inlined = u.bodies, u.externals, u.inlined
    if js is None or "*" in r.undecided:
        r.wall = time.time() - t0
        return r
    vr = js["verification-results"]
    r.verified, r.errors = vr.get("verified", 0), vr.get("errors", 0)
    for m in msgs:
        if m.get("level") != "error" or not m.get("spans"):
            continue
        w, line = where(u, m["spans"])
        fn = w[0] if w else "*"
        loc = "%s:%s" % (os.path.relpath(w[1], repo) if w and w[1] else "?", w[2] if w else "?")
        if any(v in m["message"] for v in RESOURCE):
            r.undecided[fn] = "solver limit reached: " + m["message"][:100]
        elif fn.startswith("lib:") or fn == "*":
            r.undecided[fn] = "lemma: " + text_of(u, m)[:300]
        elif fn in r.undecided:
            pass
        else:
            r.failed.setdefault(fn, []).append((text_of(u, m)[:500], loc))
    for k, a in u.anchors_missed:
        if k in r.failed:       # the hint may be all that is missing
            r.undecided[k] = "not proved, and a proof hint could not be attached at %r: %s" % (a, r.failed.pop(k)[0][0][:200])
    if r.errors and not r.failed and not r.undecided:
        r.undecided["*"] = "%d errors reported without a location" % r.errors
    fb = [x for mod in js.get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []) for x in mod.get("function-breakdown", [])]
    r.solver_ms = sum(x.get("time-micros", 0) for x in fb) / 1000.0
    for x in fb:
        r.fn_ms[x["function"].split("::", 1)[-1]] = x.get("time-micros", 0) / 1000.0
    # what is taken on trust
    for i, l in enumerate(u.lines):
        if l.endswith("//@imported"):
            r.imported += 1
            continue
        if re.search(r"external_body|\bassume\s*\(|\badmit\s*\(|assume_specification|external_fn_specification|axiom", l) and not l.strip().startswith("//"):
            nxt = l if re.search(r"fn \w+", l) else next((x for x in u.lines[i + 1:i + 4] if "fn " in x), l)
            m = re.search(r"fn (\w+)", nxt)
            src = u.linemap[i][0] or ""
            if m and src and not src.startswith("lib:"):
                continue        # a function of the repository present by contract: listed in externals
            r.trusted.append("%s: %s" % (src[4:] if src.startswith("lib:") else "prelude", m.group(1) if m else l.strip()[:80]))
    # every precondition and loop invariant can be met: an assertion of an unknown behind it must be refuted
    if probe and r.bodies:
        u2 = units.make(repo, name, cache, stub)
        u2.probe = True
        u2.dropped = dropped
        txt = u2.render()
        cmd, js2, msgs2 = run_verus(txt, os.path.join(work, "%s_probe.rs" % re.sub(r"\W", "_", name)), threads, rlimit,
                                    extra + ["--multiple-errors", "60"], timeout)
        hits = {}
        for m in msgs2:
            if m.get("level") == "error" and "assertion failed" in m["message"]:
                for s in m["spans"]:
                    l = u2.lines[s["line_start"] - 1]
                    mm = re.search(r"//@probe (.*)$", l)
                    if mm:
                        hits[mm.group(1)] = 1
        want = [re.search(r"//@probe (.*)$", l).group(1) for l in u2.lines if "//@probe " in l]
        r.probes, r.probes_hit = len(want), len([w for w in want if w in hits])
        r.vacuous = [w for w in want if w not in hits]
    r.wall = time.time() - t0
    return r


if __name__ == "__main__":
    import sys
    import tempfile
    with tempfile.TemporaryDirectory() as w:
        for n in sys.argv[1:] or units.UNITS:
            r = prove(os.environ.get("VERIF_REPO", "/repo"), n, w, 8)
            print(n, "verified", r.verified, "errors", r.errors, "probes %d/%d" % (r.probes_hit, r.probes), r.vacuous, "wall %.1f solver %.1f" % (r.wall, r.solver_ms / 1000))
            for k, v in r.failed.items():
                print("  FAILED", k, v)
            for k, v in r.undecided.items():
                print("  UNDECIDED", k, v)
            print("  trusted", r.trusted, "externals", r.externals)
