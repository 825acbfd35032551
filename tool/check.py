"""check.py PROPERTY            decide one property on the current tree
   check.py --replay FILE       run again the case a violation names

Exit 0: held on everything explored.  Exit 1 with a VIOLATION line: broken.
"""
import fnmatch
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time
from concurrent.futures import ProcessPoolExecutor, ThreadPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
import prove
import units
from plan import PLAN, SUITE_RULE

VERIF = build.VERIF
REPO = os.environ.get("VERIF_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
EVID = os.path.join(VERIF, "evidence")
PYH = os.path.join(VERIF, "harness", "pyh.py")
T0 = time.time()
HARD = 840 if TIER == "quick" else 10800
HANG = 60       # seconds one small case may take


def left():
    return HARD - (time.time() - T0)


class Shard:
    """One process of one suite.  status: ok, fail, crash, hang, error"""

    def __init__(self, suite, cmd, env, case):
        self.suite, self.cmd, self.env, self.case = suite, cmd, env, case
        self.status, self.info = "error", {}

    def run(self, limit):
        out = open(self.case + ".out", "w+b")
        err = open(self.case + ".err", "w+b")
        p = subprocess.Popen(self.cmd, stdout=out, stderr=err, env=self.env, start_new_session=True)
        t0 = time.time()
        while p.poll() is None:
            time.sleep(0.05)
            now = time.time()
            stale = os.path.exists(self.case) and now - os.stat(self.case).st_mtime > HANG and now - t0 > HANG
            if stale or now - t0 > limit:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                self.status = "hang" if stale else "error"
                self.info = {"why": "no progress for %d s" % HANG if stale else "time limit"}
                break
        else:
            out.seek(0)
            err.seek(0)
            o = out.read().decode(errors="replace").strip().split("\n")[-1]
            e = err.read().decode(errors="replace")
            try:
                js = json.loads(o)
            except ValueError:
                js = None
            if js and p.returncode == 0:
                self.status, self.info = "ok", js
            elif js and p.returncode == 1 and "fail" in js:
                self.status, self.info = "fail", js
            elif p.returncode == 1:
                self.status, self.info = "error", {"why": e[-800:]}
            else:
                self.status = "crash"
                m = re.search(r"(runtime error: [^\n]*|ERROR: AddressSanitizer: [^\n]*|Assertion [^\n]*|terminate called[^\n]*(\n[^\n]*)?)", e)
                self.info = {"why": "exit status %d%s" % (p.returncode, "; " + m.group(0)[:300] if m else ""), "stderr": e[-1500:]}
        out.close()
        err.close()
        if self.status in ("crash", "hang"):
            try:
                self.info["case"] = json.loads(open(self.case).read())
            except (OSError, ValueError):
                self.info["case"] = None
        return self


def py_cmd(ext, suite, seconds, case, extra=(), seed=None):
    return [build.PY, PYH, suite, "--seed", str(SEED if seed is None else seed), "--seconds", str(seconds), "--case", case] + list(extra)


def py_env(ext):
    e = build.san_env()
    e["PYTHONPATH"] = ext
    e["TMPDIR"] = os.path.dirname(ext)
    return e


def confirm(s, work, ext, pid):
    """Run the case of a crash or hang again, alone."""
    case = s.info.get("case")
    if not case or not isinstance(case[0], dict) or "index" not in case[0]:
        return False
    f = os.path.join(work, "confirm.%s" % s.suite)
    if s.suite in ("bits", "edges"):
        cmd = s.cmd[:4] + [str(case[0]["index"])]
    else:
        cmd = py_cmd(ext, s.suite, 1, f, ["--index", str(case[0]["index"]), "--labels", pid], seed=case[0]["seed"])
    t = Shard(s.suite, cmd, s.env, f).run(3 * HANG)
    return t.status == s.status or t.status == "error" and s.status == "hang"


def replay(path):
    js = json.load(open(path))
    if "suite" not in js:
        print(json.dumps(js, indent=1))
        print("no failing input; the failed obligations are listed above")
        return 0
    work = tempfile.mkdtemp(prefix="cmcheck")
    try:
        if js["suite"] in ("bits", "edges"):
            h = build.harness(REPO, "bits.cpp", os.path.join(work, "h"))
            return subprocess.call([h, js["suite"], str(js["seed"]), "1", str(js["index"])], env=bits_env())
        ext = build.extension(REPO, os.path.join(work, "ext"))
        return subprocess.call(py_cmd(ext, js["suite"], 1, "/dev/null", ["--index", str(js["index"]), "--labels", js["property"]], js["seed"]), env=py_env(ext))
    finally:
        shutil.rmtree(work)


def bits_env():
    e = build.env()
    e["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=77"
    e["UBSAN_OPTIONS"] = "halt_on_error=1:exitcode=77"
    return e


def known():
    """Listed findings that are not repaired: property, text, and a pattern over the failure message and case."""
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    for l in open(p) if os.path.exists(p) else []:
        l = l.strip()
        if l.startswith("{"):
            out.append(json.loads(l))
    return out


def main(pid):
    plan = PLAN[pid]
    work = tempfile.mkdtemp(prefix="cmcheck")
    os.makedirs(EVID, exist_ok=True)
    try:
        return decide(pid, plan, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def do_unit(n, work):
    r = prove.prove(REPO, n, work, threads=4, probe=True, timeout=max(60, min(600, left() - 60)))
    if r.failed or any("solver limit" in v for v in r.undecided.values()):
        # once more with another solver seed and more resources before believing it
        w2 = os.path.join(work, n + "_again")
        os.makedirs(w2, exist_ok=True)
        r2 = prove.prove(REPO, n, w2, threads=4, probe=False, rlimit=90, smt_seed=7, timeout=max(60, min(300, left() - 60)))
        if not r2.undecided.get("*"):
            r.failed = {k: v for k, v in r.failed.items() if k in r2.failed}
            r.undecided = {k: v for k, v in r.undecided.items() if k in r2.undecided or k in r2.failed}
            if r2.verified > r.verified:
                r.verified, r.errors = r2.verified, r2.errors
    return n, r


def decide(pid, plan, work):
    secs = plan.get("seconds", 18) if TIER == "quick" else plan.get("thorough_seconds", 900)
    res, notes = {}, []
    state = {"ext": None, "bits": None}

    def do_builds():
        if plan.get("py"):
            try:
                state["ext"] = build.extension(REPO, os.path.join(work, "ext"))
            except build.BuildError as e:
                notes.append("the extension does not build: " + str(e)[-600:])
        if plan.get("cxx"):
            try:
                state["bits"] = build.harness(REPO, "bits.cpp", os.path.join(work, "h"))
            except build.BuildError as e:
                notes.append("the C++ harness does not build: " + str(e)[-600:])

    def shards(seconds, seed, tag):
        out = []
        for suite, k in plan.get("py", []):
            if state["ext"]:
                env = py_env(state["ext"])
                for i in range(k):
                    c = os.path.join(work, "case.%s.%s.%d" % (tag, suite, i))
                    mn = str(plan.get("min", 250))
                    out.append(Shard(suite, py_cmd(state["ext"], suite, seconds, c, ["--labels", pid, "--start", str(i), "--stride", str(k), "--min", mn],
                                                   seed=seed), env, c))
        for suite in plan.get("cxx", []):
            if state["bits"]:
                c = os.path.join(work, "case.%s.%s" % (tag, suite))
                out.append(Shard(suite, [state["bits"], suite, str(seed), str(seconds)], bits_env(), c))
        return out

    def run_shards(ss, seconds):
        with ThreadPoolExecutor(8) as ex:
            return list(ex.map(lambda s: s.run(min(max(240, 6 * seconds), max(30, left() - 30))), ss))

    ths = [threading.Thread(target=do_builds)]
    upool = ProcessPoolExecutor(5)
    us = [upool.submit(do_unit, n, work) for n in units.closure(plan.get("units", []))]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    done = run_shards(shards(secs, SEED, "a"), secs)
    for f in us:
        n, r = f.result()
        res[n] = r

    # ---- obligations
    prim = plan.get("primary", [])
    failed, undecided = [], []
    for n, r in res.items():
        for fn, l in r.failed.items():
            for msg, loc in l:
                failed.append(dict(unit=n, function=fn, obligation=msg, at=loc, primary=any(fnmatch.fnmatch(fn, p) for p in prim)))
        for fn, why in r.undecided.items():
            undecided.append(dict(unit=n, function=fn, why=why))
        for v in r.vacuous:
            undecided.append(dict(unit=n, function=v, why="vacuous: nothing reaches it"))

    bad = [s for s in done if s.status in ("fail", "crash", "hang")]
    if not bad and (failed or undecided) and plan.get("py", []) + plan.get("cxx", []):
        # the proof does not stand: search longer, from another seed
        more = int(max(20, min(60 if TIER == "quick" else 1200, left() - 200)))
        d2 = run_shards(shards(more, SEED + 1000, "b"), more)
        done += d2
        bad = [s for s in d2 if s.status in ("fail", "crash", "hang")]

    violation = None
    kf = []
    for s in bad:
        if s.status in ("crash", "hang") and not confirm(s, work, state["ext"], pid):
            notes.append("%s in suite %s that did not repeat: %s" % (s.status, s.suite, s.info.get("why")))
            if s.status == "hang":
                continue
        msg = s.info.get("message") or "%s: %s" % (s.status, s.info.get("why"))
        case = s.info.get("case") or [{}]
        hit = [k for k in known() if k.get("property") == pid and re.search(k["match"], msg + " " + json.dumps(case))]
        if hit:
            kf.append(hit[0])
            continue
        head = case[0] if case and isinstance(case[0], dict) else {}
        violation = dict(property=pid, suite=s.suite, seed=head.get("seed", SEED), index=head.get("index"), message=msg, case=case,
                         replay="python3 tool/check.py --replay <this file>", failed_obligations=[f for f in failed][:10])
        break
    nfi = False
    if violation is None and any(f["primary"] for f in failed):
        nfi = True
        violation = dict(property=pid, message="obligations that hold on the original sources fail on these, no failing input found",
                         failed_obligations=[f for f in failed if f["primary"]])
    evidence(pid, plan, res, done, failed, undecided, violation, nfi, notes, secs)
    for k in kf:
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    for f in failed:
        print("obligation not discharged: %s at %s: %s" % (f["function"], f["at"], f["obligation"][:300]))
    for f in undecided:
        print("undecided: %s %s: %s" % (f["unit"], f["function"], f["why"][:300]))
    for n in notes:
        print("note:", n[:500])
    if violation:
        rp = os.path.join(EVID, "replay")
        os.makedirs(rp, exist_ok=True)
        path = os.path.join(rp, "%s.json" % pid)
        with open(path, "w") as f:
            json.dump(violation, f, indent=1, default=str)
        print(violation["message"][:600])
        print("VIOLATION property=%s replay=%s%s" % (pid, path, " no-failing-input-found" if nfi else ""))
        return 1
    ran = [s for s in done if s.status == "ok"]
    if (plan.get("py") or plan.get("cxx")) and not ran and not (res and all(r.ok() for r in res.values())):
        print("nothing could be decided")
        for s in done:
            print("  ", s.suite, s.status, str(s.info)[:500])
        return 2
    for s in done:
        if s.status == "error":
            print("note: suite %s gave no result: %s" % (s.suite, str(s.info.get("why"))[:500]))
    print("%s held: %d obligations discharged, %d cases of the bounded suites" %
          (pid, sum(r.verified for r in res.values()), sum(s.info.get("evaluations", 0) for s in ran)))
    return 0


ASSUME = [
    "The translation of the C++ sources (clang's syntax tree) to the verifier's language is part of the trusted base.",
    "A vector's storage is one region per owner; regions of different vectors do not overlap; an allocation that fails ends the call with an exception, and none of 2^44 or more elements succeeds.",
    "Sizes: fewer than 2^32 vertices and fewer than 2^48 entries in an edge list.",
    "Console output and capacity reservations have no effect on results.",
]


def evidence(pid, plan, res, done, failed, undecided, violation, nfi, notes, secs):
    import glob
    suites = {}
    for s in done:
        x = suites.setdefault(s.suite, dict(evaluations=0, distinct_nontrivial=0, processes=0, without_result=0))
        x["processes"] += 1
        if s.status == "ok":
            x["evaluations"] += s.info["evaluations"]
            x["distinct_nontrivial"] += s.info["distinct_nontrivial"]
            x["bound"] = s.info["bound"]
            x.setdefault("sample", s.info.get("sample"))
        else:
            x["without_result"] += 1
            x.setdefault("stopped_by", []).append("%s: %s" % (s.status, str(s.info.get("message") or s.info.get("why"))[:300]))
    level = plan.get("level", "exploration")
    proved = res and all(r.ok() and not r.vacuous and r.verified > 0 for r in res.values())
    cov = {}
    if res:
        trusted = sorted({t for r in res.values() for t in r.trusted})
        funcs = []
        for n, r in sorted(res.items()):
            for b in r.bodies:
                st = "failed" if b in r.failed else "undecided" if b in r.undecided or "*" in r.undecided else "proved"
                funcs.append(dict(unit=n, function=b, status=st, inlined=r.inlined.get(b, []), solver_ms=r.fn_ms.get(b.replace("graphBits::new_p_u_b", "graphBits::new_p_u_b"))))
        inside = {b for r in res.values() for b in r.bodies}
        cov.update(
            obligations=sum(r.verified + r.errors for r in res.values()), discharged=sum(r.verified for r in res.values()),
            obligation_unit="one per translated function or lemma, as counted by the verifier (all its assertions, pre- and postconditions, bounds, invariants and termination)",
            checker_cmd="; ".join(r.cmd for r in res.values() if r.cmd), back_end="Verus with Z3",
            solver_time_s=round(sum(r.solver_ms for r in res.values()) / 1000.0, 2),
            trusted_base=["clang 18 syntax tree and tool/{cppast,translate,emit,assemble}.py", "Verus 0.2026.09.13, Z3"] + trusted,
            functions_under_contract=funcs,
            contracts_used_from_other_units=sorted({e for r in res.values() for e in r.externals}),
            contracts_assumed=sorted({e for r in res.values() for e in r.externals} - inside),
            reachability_probes=sum(r.probes for r in res.values()), reachability_probes_refuted=sum(r.probes_hit for r in res.values()),
            obligations_failed=failed, undecided=undecided,
            proof_status="all obligations discharged" if proved else "NOT all obligations discharged: what is listed under undecided or obligations_failed rests on the bounded suites only")
    if suites:
        b = dict(evaluations=sum(x["evaluations"] for x in suites.values()), distinct_nontrivial=sum(x["distinct_nontrivial"] for x in suites.values()),
                 rule="; ".join("%s: %s" % (k, SUITE_RULE[k]) for k in suites) + "; a case is non-trivial when its graph has an edge (its set is not empty, its clock ran out), distinct by its full description",
                 samples=[x.get("sample") for x in suites.values() if x.get("sample")][:3])
        if level == "proof":
            cov["bounded"] = dict(b, note="bounded checks of the compiled code, not counted as proved")
        else:
            cov.update(b)
        cov["bounded_suites"] = {k: {a: c for a, c in x.items() if a != "sample"} for k, x in suites.items()}
    cov["decided_by_proof"] = plan.get("proved", "")
    cov["bounded_only"] = plan.get("bounded", "")
    cov["notes"] = [n[:500] for n in notes]
    ev = dict(property=pid, tier=TIER, seed=SEED, level=level, coverage=cov, wall_s=round(time.time() - T0, 1),
              assumptions=(ASSUME if res else []) + plan.get("assume", []), violations=1 if violation else 0)
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)


if __name__ == "__main__":
    if sys.argv[1] == "--replay":
        sys.exit(replay(sys.argv[2]))
    sys.exit(main(sys.argv[1]))
