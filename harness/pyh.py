"""Bounded contract checks through the public Python interface.

    pyh.py SUITE --seed S --seconds T --case FILE [--index K] [--labels P01,P02]

Every case is a function of (suite, seed, index).  The case being run is kept in
FILE, so that a crash of the extension can be reported with its input.  A case
that breaks a contract ends the run with exit status 1 and one JSON line.
"""
import argparse
import contextlib
import ctypes
import hashlib
import itertools
import json
import os
import random
import sys
import tempfile
import time
import warnings

warnings.simplefilter("ignore")
import numpy as np
import cliquematch as cm
from cliquematch import core


class Fail(Exception):
    def __init__(self, label, msg):
        Exception.__init__(self, msg)
        self.label = label


LABELS = None


def expect(cond, label, msg, *args):
    if not cond and (LABELS is None or label in LABELS):
        raise Fail(label, msg % args if args else msg)


_lib = ctypes.CDLL(core.__file__)
_step = ctypes.c_longlong.in_dll(_lib, "cm_vclock_step")


def clock(step):
    _step.value = step


# ------------------------------------------------------------- oracle
class Ref:
    """A graph on 1..n as adjacency bit masks."""

    def __init__(self, n, edges):
        self.n = n
        self.adj = [0] * (n + 1)
        self.edges = set()
        for a, b in edges:
            if a == b:
                continue
            self.adj[a] |= 1 << b
            self.adj[b] |= 1 << a
            self.edges.add((min(a, b), max(a, b)))

    def has(self, a, b):
        return bool(self.adj[a] >> b & 1)

    def is_clique(self, vs):
        vs = list(vs)
        return len(set(vs)) == len(vs) and all(1 <= v <= self.n for v in vs) and \
            all(self.has(a, b) for a, b in itertools.combinations(vs, 2))

    def maximal(self):
        adj = self.adj
        out = []

        def bk(r, p, x):
            if not p and not x:
                out.append(r)
                return
            best, u, q = -1, 0, p | x
            while q:
                v = (q & -q).bit_length() - 1
                q &= q - 1
                c = bin(p & adj[v]).count("1")
                if c > best:
                    best, u = c, v
            q = p & ~adj[u]
            while q:
                v = (q & -q).bit_length() - 1
                q &= q - 1
                bk(r | 1 << v, p & adj[v], x & adj[v])
                p &= ~(1 << v)
                x |= 1 << v
        bk(0, ((1 << (self.n + 1)) - 1) & ~1, 0)
        return out

    def omega(self):
        return max(bin(m).count("1") for m in self.maximal())

    def max_weight(self, w):
        return max(sum(w[v] for v in bits(m)) for m in self.maximal())

    def cliques(self, size):
        """All cliques of the given size, as sorted tuples."""
        out = []

        def go(pre, p):
            if len(pre) == size:
                out.append(tuple(pre))
                return
            while p:
                v = (p & -p).bit_length() - 1
                p &= p - 1
                go(pre + [v], p & self.adj[v])
        if size > 0:
            go([], ((1 << (self.n + 1)) - 1) & ~1)
        return out


def bits(m):
    while m:
        yield (m & -m).bit_length() - 1
        m &= m - 1


# ------------------------------------------------------------- generation
def exhaustive(k):
    for n in range(1, 6):
        c = 1 << (n * (n - 1) // 2)
        if k < c:
            prs = list(itertools.combinations(range(1, n + 1), 2))
            return n, [p for i, p in enumerate(prs) if k >> i & 1]
        k -= c
    return None


N_EXHAUSTIVE = sum(1 << (n * (n - 1) // 2) for n in range(1, 6))
BOUND = "all %d graphs on at most 5 vertices, then random graphs on at most 13 vertices and, every tenth, " \
        "at most 140 vertices with dense parts across the 64-bit word boundary" % N_EXHAUSTIVE


def gen_graph(rng, k, big=True, small_first=True):
    if small_first:
        g = exhaustive(k)
        if g:
            return g
    if big and k % 10 == 0:
        return gen_big(rng)
    n = rng.randint(4, 13)
    p = rng.choice([0.2, 0.4, 0.5, 0.6, 0.8, 0.95])
    return n, [e for e in itertools.combinations(range(1, n + 1), 2) if rng.random() < p]


def gen_big(rng):
    n = rng.choice([62, 63, 64, 65, 66, 90, 127, 128, 129, 130, 140])
    kind = rng.randrange(5)
    vs = list(range(1, n + 1))
    es = set()
    if kind == 0:
        m = rng.choice([n, n - 1, 63, 64, 65])
        sub = rng.sample(vs, min(m, n))
        es.update(itertools.combinations(sorted(sub), 2))
    elif kind == 1:
        hub = rng.choice(vs)
        es.update((min(hub, v), max(hub, v)) for v in vs if v != hub)
        sub = rng.sample(vs, 6)
        es.update(itertools.combinations(sorted(sub), 2))
    else:
        p = rng.choice([0.03, 0.1, 0.2])
        es.update(e for e in itertools.combinations(vs, 2) if rng.random() < p)
        for _ in range(rng.randint(0, 2)):
            sub = rng.sample(vs, rng.randint(4, 12))
            es.update(itertools.combinations(sorted(sub), 2))
        if kind == 4:
            hub = rng.choice(vs)
            es.update((min(hub, v), max(hub, v)) for v in vs if v != hub)
    return n, sorted(es)


def build(rng, n, edges, how=None):
    """Load the graph through one of the constructors, with noise that must not matter."""
    how = how or rng.choice(["edgelist", "matrix", "adjlist", "file"])
    if how == "edgelist":
        es = []
        for a, b in edges:
            es.append((a, b) if rng.random() < 0.5 else (b, a))
            if rng.random() < 0.2:
                es.append((b, a))
            if rng.random() < 0.1:
                es.append((a, a))
        rng.shuffle(es)
        return cm.Graph.from_edgelist(np.array(es, dtype=np.uint64).reshape(-1, 2), n), how
    if how == "matrix":
        m = np.zeros((n, n), dtype=bool)
        sym = rng.random() < 0.6
        for a, b in edges:
            if sym or rng.random() < 0.5:
                m[a - 1, b - 1] = True
            else:
                m[b - 1, a - 1] = True
            if sym:
                m[b - 1, a - 1] = True
        for a in range(n):
            m[a, a] = rng.random() < 0.5
        return cm.Graph.from_matrix(m), how
    if how == "adjlist":
        s = [set() for _ in range(n + 1)]
        for a, b in edges:
            s[a].add(b)
            s[b].add(a)
        return cm.Graph.from_adjlist(n, len(set(edges)), s), how
    es = [(a, b) if rng.random() < 0.5 else (b, a) for a, b in edges]
    rng.shuffle(es)
    with scratch_file() as fn:
        with open(fn, "w") as f:
            f.write("%% a graph\n%d %d %d\n" % (n, n, len(es)))
            for a, b in es:
                f.write("%d %d%s\n" % (a, b, rng.choice(["", " 1.5", " 3 4"])))
        return cm.Graph.from_file(fn), how


@contextlib.contextmanager
def scratch_file():
    fd, fn = tempfile.mkstemp(dir=SCRATCH)
    os.close(fd)
    try:
        yield fn
    finally:
        os.unlink(fn)


SCRATCH = None
DESC = []


def note(x):
    DESC.append(x)
    if len(DESC) < 400:
        put_case()


CASE_FD = None


def put_case():
    s = json.dumps(DESC, default=str).encode()
    os.pwrite(CASE_FD, s, 0)
    os.ftruncate(CASE_FD, len(s))


def check_graph(ref, G, label, wt=None):
    """Everything that can be read back agrees with the reference graph."""
    note("read back")
    expect(G.n_vertices == ref.n, label, "n_vertices is %d, expected %d", G.n_vertices, ref.n)
    expect(G.n_edges == len(ref.edges), label, "n_edges is %d, expected %d", G.n_edges, len(ref.edges))
    el = G.to_edgelist()
    got = [(int(a), int(b)) for a, b in el]
    expect(el.shape == (len(ref.edges), 2), label, "edge list has shape %s for %d edges", el.shape, len(ref.edges))
    expect({(min(e), max(e)) for e in got} == ref.edges, label, "edge list has edges %s, expected %s", sorted(got), sorted(ref.edges))
    expect(len(got) == len(set(got)), label, "edge list repeats an edge: %s", sorted(got))
    m = G.to_matrix()
    expect(m.shape == (ref.n, ref.n), label, "matrix has shape %s", m.shape)
    want = np.zeros((ref.n, ref.n), dtype=bool)
    for a, b in ref.edges:
        want[a - 1, b - 1] = want[b - 1, a - 1] = True
    expect(bool((m == want).all()), label, "matrix differs from the edges")
    al = G.to_adjlist()
    expect(len(al) == ref.n + 1 and len(al[0]) == 0, label, "adjacency list has %d sets", len(al))
    for v in range(1, ref.n + 1):
        nb = set(bits(ref.adj[v]))
        expect(set(al[v]) == nb, label, "adjacency list of %d is %s, expected %s", v, sorted(al[v]), sorted(nb))
        vn = G._vertex_neighbors(v)
        if wt is not None:
            expect(vn[0] == wt[v], label, "weight of %d is %s, expected %s", v, vn[0], wt[v])
            vn = vn[1]
        expect(set(vn) == nb, label, "neighbours of %d are %s, expected %s", v, sorted(vn), sorted(nb))


# ------------------------------------------------------------- suites
def one_search(ref, omega, G, rng, opts=None, lab=None):
    """One get_max_clique call on a graph that may have been used before."""
    P1, P2, P3, P15 = lab or ("P01", "P02", "P03", "P15")
    if opts is None:
        l = rng.choice([0, 1, 1, 1, 1, 2, omega - 1, omega, omega + 1, rng.randint(0, ref.n + 1)])
        u = rng.choice([0xFFFF, 0xFFFF, 0xFFFF, omega, omega - 1, omega + 1, rng.randint(0, ref.n + 1)])
        t = rng.choice([0, 0, -1.0, 1e6])
        h, d = rng.choice([(True, True), (True, True), (False, True), (False, True), (True, False)])
        opts = dict(lower_bound=max(0, l), upper_bound=max(0, u), time_limit=t, use_heuristic=h, use_dfs=d)
    note(["get_max_clique", opts])
    l, u, d = opts["lower_bound"], opts["upper_bound"], opts["use_dfs"]
    goal = min(omega, u)
    try:
        r = G.get_max_clique(**opts)
    except RuntimeError as e:
        if d:
            expect(goal <= l, P2, "get_max_clique(%s) raised %r, but there is a clique of %d vertices", opts, str(e)[:60], omega)
        return None
    expect(ref.is_clique(r), P1, "get_max_clique(%s) gave %s, which is not a clique", opts, r)
    expect(len(r) <= u, P15, "get_max_clique(%s) gave %d vertices, more than the upper bound", opts, len(r))
    expect(len(r) >= l, P15, "get_max_clique(%s) gave %d vertices, less than the lower bound", opts, len(r))
    if d:
        expect(goal >= l, P15, "get_max_clique(%s) succeeded, but no clique has more than %d vertices", opts, omega)
        if goal > l:
            expect(len(r) >= goal, P2, "get_max_clique(%s) gave %d vertices, the maximum is %d", opts, len(r), omega)
        expect(G.search_done, P3, "search_done is False after a search without interruption")
    return r


def s_search(rng, k):
    n, es = gen_graph(rng, k)
    ref = Ref(n, es)
    note(["graph", n, es])
    G, how = build(rng, n, es)
    note(["loaded from", how])
    om = ref.omega()
    plain = dict(lower_bound=1, upper_bound=0xFFFF, time_limit=rng.choice([0, 1e6]), use_heuristic=rng.random() < 0.5, use_dfs=True)
    one_search(ref, om, G, rng, plain if rng.random() < 0.6 else None)
    if rng.random() < 0.5:
        note("reset_search")
        G.reset_search()
        expect(not G.search_done, "P15", "search_done is True after reset_search")
        one_search(ref, om, G, rng)
    return len(es) > 0


def s_history(rng, k):
    """Any sequence of operations on one graph; each result as on a fresh graph."""
    n, es = gen_graph(rng, k, small_first=rng.random() < 0.3)
    ref = Ref(n, es)
    note(["graph", n, es])
    G, how = build(rng, n, es)
    om = ref.omega()
    lab = ("P10", "P10", "P10", "P10")
    its = []
    counts = {}
    for step in range(rng.randint(3, 14)):
        op = rng.randrange(8)
        if op <= 2:
            one_search(ref, om, G, rng, lab=lab)
        elif op == 3:
            note("reset_search")
            G.reset_search()
        elif op == 4 and n <= 13:
            s = rng.randint(1, om + 1)
            note(["start all_cliques", s])
            its.append([s, G.all_cliques(s), []])
        elif op == 5 and n <= 13:
            s = rng.randint(1, om + 1)
            if s not in counts:
                counts[s] = sorted(ref.cliques(s))
            note(["list all_cliques", s])
            got = sorted(tuple(sorted(c)) for c in G.all_cliques(s))
            expect(got == counts[s], "P10", "all_cliques(%d) gave %s, expected %s", s, got, counts[s])
        elif op == 6:
            check_graph(ref, G, "P10")
        elif its:
            it = rng.choice(its)
            for _ in range(rng.randint(1, 4)):
                note(["next of all_cliques", it[0]])
                try:
                    c = tuple(sorted(next(it[1])))
                except StopIteration:
                    if it[0] not in counts:
                        counts[it[0]] = sorted(ref.cliques(it[0]))
                    expect(sorted(it[2]) == counts[it[0]], "P10", "all_cliques(%d) gave %s, expected %s", it[0], sorted(it[2]), counts[it[0]])
                    its.remove(it)
                    break
                expect(ref.is_clique(c) and len(c) == it[0], "P10", "all_cliques(%d) gave %s", it[0], c)
                expect(c not in it[2], "P10", "all_cliques(%d) gave %s twice", it[0], c)
                it[2].append(c)
    if rng.random() < 0.1:
        note("many abandoned enumerations and searches")
        for _ in range(60):
            with contextlib.suppress(StopIteration):
                next(G.all_cliques(rng.randint(2, max(2, min(om, 20)))))
            G.reset_search()
            one_search(ref, om, G, rng, lab=lab)
    return len(es) > 0


def s_timed(rng, k):
    """The clock runs out after a chosen number of queries."""
    n, es = gen_graph(rng, k, small_first=rng.random() < 0.5)
    ref = Ref(n, es)
    note(["graph", n, es])
    om = ref.omega()
    G, how = build(rng, n, es, "edgelist")
    lim = rng.choice([1, 2, 3, 4, 5, 6, 8, 10, 13, 20, 40, 100, 1000])
    note(["clock queries allowed per call", lim])
    heur = rng.random() < 0.3
    calls = 0
    clock(1)
    try:
        while not G.search_done and calls < 400:
            calls += 1
            if calls > 200 or calls > 4 and rng.random() < 0.03:
                lim = lim + 10      # a longer limit finishes the search eventually
            t = (lim + 0.5) * 1e-6
            note(["get_max_clique", "time_limit", t, "continue_search"])
            try:
                r = G.get_max_clique(time_limit=t, use_heuristic=heur, use_dfs=True, continue_search=True)
            except RuntimeError as e:
                expect(False, "P03", "interrupted search raised %r", str(e)[:80])
                return True
            expect(ref.is_clique(r), "P01", "interrupted search gave %s, which is not a clique", r)
            expect(len(r) >= 1, "P03", "interrupted search gave an empty clique")
            if rng.random() < 0.1 and n <= 13:
                s = rng.randint(2, om) if om >= 2 else 2
                note(["next of all_cliques", s])
                with contextlib.suppress(StopIteration):
                    c = next(G.all_cliques(s))
                    expect(ref.is_clique(c) and len(c) == s, "P04", "all_cliques(%d) gave %s", s, c)
            if G.search_done:
                expect(len(r) == om, "P03", "search_done with a clique of %d vertices, the maximum is %d", len(r), om)
        if G.search_done:
            r = G.get_max_clique(time_limit=1e-6, use_heuristic=False, use_dfs=True, continue_search=True)
            expect(ref.is_clique(r), "P01", "continued search gave %s, which is not a clique", r)
            expect(len(r) == om, "P03", "continuing after search_done gave %d vertices, the maximum is %d", len(r), om)
        # one interrupted search, then a complete one
        G.reset_search()
        note("reset_search, interrupted search, enumeration, complete search")
        G.get_max_clique(time_limit=(lim % 7 + 0.5) * 1e-6, use_heuristic=False)
        if n <= 13 and om >= 2:
            s = rng.randint(2, om)
            got = sorted(tuple(sorted(c)) for c in G.all_cliques(s))
            expect(got == sorted(ref.cliques(s)), "P04", "all_cliques(%d) after an interrupted search gave %s", s, got)
        r = G.get_max_clique(time_limit=0)
        expect(len(r) == om and ref.is_clique(r), "P03", "complete search after an interrupted one gave %s, the maximum is %d", r, om)
    finally:
        clock(0)
    return calls > 1


def s_enum(rng, k):
    n, es = gen_graph(rng, k)
    ref = Ref(n, es)
    note(["graph", n, es])
    G, how = build(rng, n, es)
    om = ref.omega() if n <= 13 else None
    if rng.random() < 0.4:
        note("get_max_clique first")
        G.get_max_clique()
    sizes = range(0, om + 2) if n <= 13 else ([2, 3] if len(es) < 1500 else [2])
    for s in sizes:
        note(["all_cliques", s])
        got = [tuple(c) for c in G.all_cliques(s)]
        for c in got:
            expect(ref.is_clique(c), "P01", "all_cliques(%d) gave %s, which is not a clique", s, c)
            expect(len(c) == s, "P04", "all_cliques(%d) gave %s", s, c)
        gs = sorted(tuple(sorted(c)) for c in got)
        want = sorted(ref.cliques(s))
        expect(len(gs) == len(set(gs)), "P04", "all_cliques(%d) repeats a clique: %s", s, gs)
        expect(gs == want, "P04", "all_cliques(%d) gave %d cliques, expected %d (missing %s, extra %s)", s, len(gs), len(want),
               sorted(set(want) - set(gs))[:4], sorted(set(gs) - set(want))[:4])
    return len(es) > 0


def weights_for(rng, n):
    kind = rng.randrange(4)
    if kind == 0:
        return [0.0] + [1.0] * n
    if kind == 1:
        return [0.0] + [rng.randint(1, 8) / 8.0 for _ in range(n)]
    if kind == 2:
        return [0.0] + [float(rng.choice([1, 2, 3, 50])) for _ in range(n)]
    return [0.0] + [rng.randint(1, 64) / 4.0 for _ in range(n)]


def nwbuild(rng, n, es, wt):
    how = rng.choice(["edgelist", "matrix", "adjlist"])
    note(["weighted graph", n, es, wt[1:], how])
    w = np.array(wt[1:], dtype=float)
    if how == "edgelist":
        l = [(a, b) if rng.random() < 0.5 else (b, a) for a, b in es]
        l += [e for e in l if rng.random() < 0.1]
        return cm.NWGraph.from_edgelist(np.array(l, dtype=np.uint64).reshape(-1, 2), n, w)
    if how == "matrix":
        m = np.zeros((n, n), dtype=bool)
        for a, b in es:
            m[a - 1, b - 1] = m[b - 1, a - 1] = True
        return cm.NWGraph.from_matrix(m, w)
    s = [set() for _ in range(n + 1)]
    for a, b in es:
        s[a].add(b)
        s[b].add(a)
    return cm.NWGraph.from_adjlist(n, len(set(es)), s, list(w))


def nw_one(ref, wmax, wt, G, rng, opts=None, lab="P05"):
    if opts is None:
        l = rng.choice([0.0, 0.0, 0.0, wmax / 2, wmax - 0.125, wmax, wmax + 1])
        u = rng.choice([65535.0, 65535.0, 65535.0, wmax, wmax / 2, wmax + 1])
        h, d = rng.choice([(True, True), (False, True), (True, False)])
        opts = dict(lower_bound=max(0.0, l), upper_bound=u, use_heuristic=h, use_dfs=d)
    note(["get_max_clique", opts])
    goal = min(wmax, opts["upper_bound"])
    try:
        r = G.get_max_clique(**opts)
    except RuntimeError as e:
        if opts["use_dfs"]:
            expect(goal <= opts["lower_bound"], lab, "get_max_clique(%s) raised %r, but there is a clique of weight %s", opts, str(e)[:60], wmax)
        return
    expect(ref.is_clique(r), "P01" if lab == "P05" else lab, "weighted get_max_clique(%s) gave %s, which is not a clique", opts, r)
    w = sum(wt[v] for v in r)
    expect(G.get_clique_weight(list(r)) == w, lab, "get_clique_weight(%s) is %s, expected %s", r, G.get_clique_weight(list(r)), w)
    expect(w >= opts["lower_bound"], lab, "get_max_clique(%s) gave weight %s, less than the lower bound", opts, w)
    if opts["use_dfs"] and goal > opts["lower_bound"]:
        expect(w >= goal, lab, "get_max_clique(%s) gave weight %s, the maximum is %s", opts, w, wmax)


def s_nw(rng, k):
    n, es = gen_graph(rng, k)
    ref = Ref(n, es)
    wt = weights_for(rng, n)
    G = nwbuild(rng, n, es, wt)
    wmax = ref.max_weight(wt)
    nw_one(ref, wmax, wt, G, rng, dict(lower_bound=0.0, upper_bound=65535.0, use_heuristic=rng.random() < 0.5, use_dfs=True)
           if rng.random() < 0.6 else None)
    for _ in range(rng.randint(0, 2)):
        if rng.random() < 0.5:
            note("reset_search")
            G.reset_search()
        nw_one(ref, wmax, wt, G, rng)
    return len(es) > 0


def s_nwenum(rng, k):
    n, es = gen_graph(rng, k, big=False)
    ref = Ref(n, es)
    wt = weights_for(rng, n)
    G = nwbuild(rng, n, es, wt)
    if rng.random() < 0.4:
        note("get_max_clique first")
        with contextlib.suppress(RuntimeError):
            G.get_max_clique(lower_bound=0.0)
    allc = [c for s in range(2, ref.omega() + 1) for c in ref.cliques(s)]
    ws = sorted({sum(wt[v] for v in c) for c in allc}) or [1.0]
    for W in rng.sample(ws, min(3, len(ws))) + [ws[-1] + 0.125, ws[0] / 2]:
        note(["all_cliques", W])
        got = [frozenset(c) for c in G.all_cliques(W)]
        for c in got:
            expect(ref.is_clique(c), "P01", "weighted all_cliques(%s) gave %s, which is not a clique", W, sorted(c))
            expect(sum(wt[v] for v in c) >= W, "P06", "all_cliques(%s) gave %s of weight %s", W, sorted(c), sum(wt[v] for v in c))
        expect(len(set(got)) == len(got), "P06", "all_cliques(%s) repeats a clique", W)
        for c in allc:
            if sum(wt[v] for v in c) >= W:
                expect(any(g <= set(c) for g in got), "P06", "all_cliques(%s) gave nothing inside %s of weight %s", W, c, sum(wt[v] for v in c))
    return len(es) > 0


def s_nwhistory(rng, k):
    n, es = gen_graph(rng, k, small_first=rng.random() < 0.3)
    ref = Ref(n, es)
    wt = weights_for(rng, n)
    G = nwbuild(rng, n, es, wt)
    wmax = ref.max_weight(wt)
    for _ in range(rng.randint(3, 10)):
        op = rng.randrange(5)
        if op <= 1:
            nw_one(ref, wmax, wt, G, rng, lab="P10")
        elif op == 2:
            note("reset_search")
            G.reset_search()
        elif op == 3 and n <= 13:
            W = wmax * rng.random()
            note(["next of all_cliques", W])
            it = G.all_cliques(W)
            for _ in range(rng.randint(1, 5)):
                with contextlib.suppress(StopIteration):
                    c = next(it)
                    expect(ref.is_clique(c), "P10", "weighted all_cliques(%s) gave %s", W, c)
        else:
            check_graph(ref, G, "P10", wt)
    return len(es) > 0


def s_load(rng, k):
    n, es = gen_graph(rng, k)
    ref = Ref(n, es)
    note(["graph", n, es])
    how = ["edgelist", "matrix", "adjlist", "file"][k % 4]
    G, how = build(rng, n, es, how)
    note(["loaded from", how])
    check_graph(ref, G, "P07")
    # each export is a valid input for the matching constructor
    note("round trips")
    check_graph(ref, cm.Graph.from_edgelist(G.to_edgelist(), n), "P08")
    check_graph(ref, cm.Graph.from_matrix(G.to_matrix()), "P08")
    check_graph(ref, cm.Graph.from_adjlist(G.n_vertices, G.n_edges, [set(x) for x in G.to_adjlist()]), "P08")
    with scratch_file() as fn:
        G.to_file(fn)
        check_graph(ref, cm.Graph.from_file(fn), "P08")
        txt = open(fn).read()
        body = [l for l in txt.split("\n") if l and l[0] not in "%#"]
        expect(body[0].split() == [str(n), str(n), str(len(ref.edges))], "P08", "header %r", body[0])
        expect(len(body) == 1 + len(ref.edges), "P08", "%d edge lines for %d edges", len(body) - 1, len(ref.edges))
    if k % 2:
        wt = weights_for(rng, n)
        H = nwbuild(rng, n, es, wt)
        check_graph(ref, H, "P07", wt)
        expect(list(H._get_vertex_weights()) == wt[1:], "P07", "vertex weights %s, expected %s", H._get_vertex_weights(), wt[1:])
        check_graph(ref, cm.NWGraph.from_matrix(H.to_matrix(), np.array(wt[1:])), "P08", wt)
        check_graph(ref, cm.NWGraph.from_edgelist(H.to_edgelist(), n, np.array(wt[1:])), "P08", wt)
        check_graph(ref, cm.NWGraph.from_adjlist(n, H.n_edges, [set(x) for x in H.to_adjlist()], wt[1:]), "P08", wt)
    return len(es) > 0


def s_file(rng, k):
    """Matrix Market text with everything the format allows, and damage."""
    n, es = gen_graph(rng, k, small_first=rng.random() < 0.3)
    lines = []
    keep = []
    for a, b in es:
        kind = rng.random()
        if kind < 0.1:
            lines.append("%d %d" % (a, a))
            continue
        if kind < 0.15:
            lines.append("%d %d" % (0, b))
            continue
        if kind < 0.2:
            lines.append("%d %d" % (a, n + rng.randint(1, 5)))
            continue
        if kind < 0.24:
            lines.append(rng.choice(["%d -%d" % (a, b), "-%d %d" % (a, b), "%d %d" % (a, b + 2 ** 32), "%d %d" % (a + 10 ** 18, b)]))
            continue
        if rng.random() < 0.5:
            a, b = b, a
        lines.append("%s%d%s%d%s" % (rng.choice(["", "", "  ", "\n"]), a, rng.choice([" ", " ", "\t  "]), b, rng.choice(["", " 2.25", "\t7 7", "   ", " x" + "y" * 300, "\r"])))
        keep.append((a, b))
        if rng.random() < 0.1:
            lines.append("%d %d" % (b, a))
    ref = Ref(n, keep)
    pre = "".join(rng.choice(["%%MatrixMarket matrix coordinate pattern symmetric\n", "% " + "x" * rng.choice([0, 5, 3000]) + "\n", "# c\n"])
                  for _ in range(rng.randrange(4)))
    announced = len(lines) + rng.choice([0, 0, 0, 1, 5])
    text = pre + "%d %d %d\n" % (n, n, announced) + "\n".join(lines) + rng.choice(["", "\n"] if lines else ["\n"])
    note(["file", text if len(text) < 3000 else text[:300]])
    with scratch_file() as fn:
        with open(fn, "w") as f:
            f.write(text)
        G = cm.Graph.from_file(fn)
        check_graph(ref, G, "P16")
        bad = rng.choice(["", "abc\n", "% only comments\n", "3\n", "3 3\n", "3 3 x\n", "3 3 -1\n1 2\n", "3 -3 1\n1 2\n", "-3 3 1\n1 2\n", "-1 -1 2\n1 2\n"])
        with open(fn, "w") as f:
            f.write(bad)
        note(["damaged file", bad])
        try:
            cm.Graph.from_file(fn)
            ok = False
        except Exception:
            ok = True
        expect(ok, "P16", "a file with contents %r was accepted", bad)
    try:
        cm.Graph.from_file(fn)      # gone now
        ok = False
    except Exception:
        ok = True
    expect(ok, "P16", "a missing file was accepted")
    return len(es) > 0


def raises(label, what, f):
    note(["must raise", what])
    try:
        r = f()
    except Exception:
        return
    expect(False, label, "%s gave %s instead of an error", what, r)


def s_errors(rng, k):
    n, es = gen_graph(rng, k, big=False, small_first=False)
    es = es or [(1, 2)]
    a, b = rng.choice(es)
    u = lambda l: np.array(l, dtype=np.uint64).reshape(-1, 2)
    w = np.ones(n)
    P = "P09"
    for bad in ([(0, b)], [(a, 0)], [(0, 0)], [(a, n + 1)], [(n + 1, b)], [(n + 1, n + 1)], [(b, 2 ** 63)], [(n + rng.randint(1, 100), b)], [(2 ** 40, b)]):
        l = es + bad
        rng.shuffle(l)
        raises(P, "from_edgelist %s with %d vertices" % (bad, n), lambda: cm.Graph.from_edgelist(u(l), n))
        raises(P, "weighted from_edgelist %s with %d vertices" % (bad, n), lambda: cm.NWGraph.from_edgelist(u(l), n, w))
    c = rng.choice([1, 3])
    raises(P, "edge list with %d columns" % c, lambda: cm.Graph.from_edgelist(np.ones((4, c), dtype=np.uint64), n))
    raises(P, "weighted edge list with %d columns" % c, lambda: cm.NWGraph.from_edgelist(np.ones((4, c), dtype=np.uint64), n, w))
    for sh in ((4,), (2, 2, 2)):
        raises(P, "edge list of shape %s" % (sh,), lambda: cm.Graph.from_edgelist(np.ones(sh, dtype=np.uint64), n))
        raises(P, "weighted edge list of shape %s" % (sh,), lambda: cm.NWGraph.from_edgelist(np.ones(sh, dtype=np.uint64), n, w))
    for sh in ((n, n + 1), (n + 1, n), (n, 1), (1, n) if n > 1 else (1, 2), (n,), (n, n, n)):
        if len(sh) == 2 and sh[0] == sh[1]:
            continue
        raises(P, "matrix of shape %s" % (sh,), lambda: cm.Graph.from_matrix(np.ones(sh, dtype=bool)))
        for l in {n, sh[0], sh[-1]}:
            raises(P, "weighted matrix of shape %s" % (sh,), lambda: cm.NWGraph.from_matrix(np.ones(sh, dtype=bool), np.ones(l)))

    def al():
        s = [set() for _ in range(n + 1)]
        for x, y in es:
            s[x].add(y)
            s[y].add(x)
        return s
    ne = len(es)
    for name, ch in (("an edge in one direction only", lambda s: s[a].discard(b)), ("a loop", lambda s: s[a].add(a)),
                     ("vertex 0", lambda s: s[a].add(0)), ("an unknown vertex", lambda s: s[a].add(n + 1)),
                     ("neighbours of 0", lambda s: s[0].add(a)), ("a missing set", lambda s: s.pop()),
                     ("an extra set", lambda s: s.append(set()))):
        s = al()
        ch(s)
        raises(P, "adjacency list with " + name, lambda: cm.Graph.from_adjlist(n, ne, s))
        raises(P, "weighted adjacency list with " + name, lambda: cm.NWGraph.from_adjlist(n, ne, s, list(w)))
    for m in (n + 1, n - 1):
        raises(P, "adjacency list of %d sets for %d vertices" % (n, m), lambda: cm.Graph.from_adjlist(m, ne, al()))
        raises(P, "weighted adjacency list of %d sets for %d vertices" % (n, m), lambda: cm.NWGraph.from_adjlist(m, ne, al(), [1.0] * m))
    for m in (ne + 1, ne - 1, 2 * ne, 0):
        raises(P, "adjacency list of %d edges given as %d" % (ne, m), lambda: cm.Graph.from_adjlist(n, m, al()))
        raises(P, "weighted adjacency list of %d edges given as %d" % (ne, m), lambda: cm.NWGraph.from_adjlist(n, m, al(), list(w)))
    for m in {0, n - 1, n + 1, n + rng.randint(2, 9), 2 * n}:
        raises(P, "edge list, %d weights for %d vertices" % (m, n), lambda: cm.NWGraph.from_edgelist(u(es), n, np.ones(m)))
        raises(P, "matrix, %d weights for %d vertices" % (m, n), lambda: cm.NWGraph.from_matrix(np.ones((n, n), dtype=bool), np.ones(m)))
        raises(P, "adjacency list, %d weights for %d vertices" % (m, n), lambda: cm.NWGraph.from_adjlist(n, ne, al(), [1.0] * m))
    raises(P, "weights of two dimensions", lambda: cm.NWGraph.from_edgelist(u(es), n, np.ones((n, 1))))
    raises(P, "empty adjacency list", lambda: cm.Graph.from_adjlist(n, 0, []))
    for cls in (cm.Graph, cm.NWGraph):
        G = cls()
        for m in ("get_max_clique", "reset_search", "to_edgelist", "to_matrix", "to_adjlist"):
            raises(P, "%s of an empty %s" % (m, cls.__name__), getattr(G, m))
        raises(P, "all_cliques of an empty %s" % cls.__name__, lambda: next(iter(G.all_cliques(2))))
        raises(P, "neighbours in an empty %s" % cls.__name__, lambda: G._vertex_neighbors(0))
        raises(P, "neighbours in an empty %s" % cls.__name__, lambda: G._vertex_neighbors(1))
        raises(P, "correspondence of an empty %s" % cls.__name__, lambda: G._get_correspondence(2, 2))
        raises(P, "correspondences of an empty %s" % cls.__name__, lambda: next(iter(G._all_correspondences(2, 2, 2))))
    raises(P, "weights of an empty graph", lambda: cm.NWGraph()._get_vertex_weights())
    raises(P, "to_file of an empty graph", lambda: cm.Graph().to_file(os.path.join(SCRATCH, "never")))
    G = cm.Graph.from_edgelist(u(es), n)
    W = cm.NWGraph.from_edgelist(u(es), n, w)
    for m in (n + 1, n + 2, 2 ** 32, 2 ** 63):
        raises(P, "neighbours of unknown vertex %d" % m, lambda: G._vertex_neighbors(m))
        raises(P, "weighted neighbours of unknown vertex %d" % m, lambda: W._vertex_neighbors(m))
    raises(P, "to_file into a missing directory", lambda: G.to_file(os.path.join(SCRATCH, "no", "such", "dir")))
    for g1, g2 in ((cm.Graph(), G), (G, cm.Graph()), (cm.Graph(), cm.Graph())):
        raises(P, "isomorphism with an empty graph", lambda: cm.IsoGraph(g1, g2).build_edges())
    # and the rejected inputs left nothing behind
    check_graph(Ref(n, es), G, "P09")
    return True


def sym_dist(rng, n, sym, vals):
    d = [[0.0] * n for _ in range(n)]
    for i in range(n):
        for j in range(n):
            if i < j or not sym:
                d[i][j] = rng.choice(vals)
                if sym:
                    d[j][i] = d[i][j]
    return d


def corr_edges(n1, n2, ok):
    """Vertices are pairs (i, a); ok(i, j, a, b) tells whether (i,a)-(j,b) is an edge."""
    es = set()
    for i in range(n1):
        for j in range(n1):
            for a in range(n2):
                for b in range(n2):
                    if i != j and a != b and ok(i, j, a, b):
                        x, y = i * n2 + a + 1, j * n2 + b + 1
                        es.add((min(x, y), max(x, y)))
    return es


def check_corr(rng, G, n1, n2, ref, fmt=None):
    """Correspondences read from the graph: one-to-one, in range, pairwise related."""
    om = ref.omega()
    note("get_correspondence")
    r = G.get_correspondence()
    expect(len(r) == 2 and len(r[0]) == len(r[1]), "P12", "correspondence %s has parts of different length", r)
    expect(len(r[0]) == om, "P12", "correspondence of %d elements, the maximum is %d", len(r[0]), om)

    def chk(r):
        expect(all(0 <= x < n1 for x in r[0]) and all(0 <= x < n2 for x in r[1]), "P12", "correspondence %s leaves the sets", r)
        expect(len(set(r[0])) == len(r[0]) and len(set(r[1])) == len(r[1]), "P12", "correspondence %s is not one-to-one", r)
        expect(ref.is_clique([i * n2 + a + 1 for i, a in zip(*r)]), "P12", "correspondence %s relates elements that do not agree", r)
    chk(r)

    def chk_elems(s, r):
        s = [s["S1"], s["S2"]] if isinstance(s, dict) else s
        expect(len(s) == 2 and all(np.array_equal(np.array(p), np.array([S[x] for x in ix])) for p, S, ix in zip(s, fmt, r)), "P12",
               "elements %s do not match indices %s", s, r)
    if fmt:
        G.reset_search()
        chk_elems(G.get_correspondence(return_indices=False), r)
    s = rng.randint(2, om) if om >= 2 else 2
    if ref.n <= 25:
        note(["all_correspondences", s])
        got = list(G.all_correspondences(s))
        for r in got:
            chk(r)
            expect(len(r[0]) == s, "P12", "all_correspondences(%d) gave %s", s, r)
        as_sets = {tuple(sorted(zip(*r))) for r in got}
        want = len(ref.cliques(s))
        expect(len(got) == len(as_sets) == want, "P12", "all_correspondences(%d) gave %d of %d correspondences", s, len(as_sets), want)
        if fmt:
            es = list(G.all_correspondences(s, return_indices=False))
            expect(len(es) == len(got), "P12", "all_correspondences(%d) gave %d correspondences by their elements, %d by indices", s, len(es), len(got))
            for e, r in zip(es, got):
                chk_elems(e, r)


def laid(rng, a):
    """The same points in another memory layout or type"""
    how = rng.randrange(6)
    if how == 0:
        return np.asfortranarray(a)
    if how == 1:
        b = np.zeros((len(a), 2 * a.shape[1]))
        b[:, ::2] = a
        return b[:, ::2]
    if how == 2:
        b = np.array(a)
        b.setflags(write=False)
        return b
    if how == 3:
        return a.tolist()
    if how == 4:
        return a.astype(np.float32)
    return a


def s_corr(rng, k):
    n1, n2 = rng.randint(1, 5), rng.randint(1, 5)
    vals = rng.choice([[1.0, 2.0], [1.0, 1.25, 1.5, 2.0, 4.0], [float(x) / 4 for x in range(40)], [1.0, 100.0]])
    eps = rng.choice([0.0, 0.125, 0.25, 0.5, 1.0, 3.0])
    s1, s2 = rng.random() < 0.7, rng.random() < 0.7
    kind = rng.randrange(6)
    near = lambda d1, d2: lambda i, j, a, b: abs(d1[i][j] - d2[a][b]) <= eps
    if kind <= 2:
        d1, d2 = sym_dist(rng, n1, s1, vals), sym_dist(rng, n2, s2, vals)
        note(["two lists", d1, d2, "symmetric", s1, s2, "epsilon", eps])
        L1, L2 = list(range(100, 100 + n1)), list(range(200, 200 + n2))
        f1 = lambda l, i, j: d1[i][j]
        f2 = lambda l, i, j: d2[i][j]
        cls = rng.choice([cm.L2LGraph, cm.A2LGraph, cm.L2AGraph, cm.A2AGraph])
        note(cls.__name__)
        if cls in (cm.A2LGraph, cm.A2AGraph):
            L1 = np.array([[float(x), 0.0] for x in L1])
        if cls in (cm.L2AGraph, cm.A2AGraph):
            L2 = np.array([[float(x), 0.0] for x in L2])
        G = cls(laid(rng, L1) if isinstance(L1, np.ndarray) else L1, laid(rng, L2) if isinstance(L2, np.ndarray) else L2, f1, f2, s1, s2)
        G.epsilon = eps
        if kind == 0:
            note("build_edges")
            G.build_edges()
            ok = near(d1, d2)
        else:
            c = {q: rng.random() < 0.6 for q in itertools.product(range(n1), range(n1), range(n2), range(n2))}
            for (i, j, a, b) in list(c):     # a condition does not depend on the order in which two pairs are named
                c[(j, i, b, a)] = c[(i, j, a, b)]
            cf = lambda A, i, j, B, a, b: c[(i, j, a, b)]
            note(["condition", sorted(q for q in c if c[q]), "only", kind == 2])
            G.build_edges_with_condition(cf, kind == 2)
            nr = near(d1, d2)
            ok = (lambda i, j, a, b: c[(i, j, a, b)]) if kind == 2 else (lambda i, j, a, b: nr(i, j, a, b) and c[(i, j, a, b)])
        ref = Ref(n1 * n2, corr_edges(n1, n2, ok))
        check_graph(ref, G, "P11")
        check_corr(rng, G, n1, n2, ref, (L1, L2))
        return len(ref.edges) > 0
    # default Euclidean distances; squares of integers, so that equal distances are equal numbers
    p1 = [(rng.randint(0, 6), rng.randint(0, 6)) for _ in range(n1)]
    if rng.random() < 0.6:
        t = (rng.randint(-3, 3), rng.randint(-3, 3))
        p2 = [(-y + t[0], x + t[1]) for x, y in rng.sample(p1, rng.randint(1, n1))]
        n2 = len(p2)
    else:
        p2 = [(rng.randint(0, 6), rng.randint(0, 6)) for _ in range(n2)]
    dist = lambda p: [[float(np.sqrt(float((a[0] - b[0]) ** 2 + (a[1] - b[1]) ** 2))) for b in p] for a in p]
    d1, d2 = dist(p1), dist(p2)
    eps = rng.choice([1e-6, 0.01, 0.3, 1.0 + 1e-6])
    if any(abs(abs(x - y) - eps) < 1e-9 for r in d1 for x in r for q in d2 for y in q):
        return False
    note(["points", p1, p2, "epsilon", eps])
    A1, A2 = np.array(p1, dtype=float).reshape(-1, 2), np.array(p2, dtype=float).reshape(-1, 2)
    G = (cm.A2AGraph if rng.random() < 0.7 else cm.AlignGraph)(laid(rng, A1), laid(rng, A2))
    note(type(G).__name__)
    G.epsilon = eps
    G.build_edges()
    ref = Ref(n1 * n2, corr_edges(n1, n2, near(d1, d2)))
    check_graph(ref, G, "P11")
    check_corr(rng, G, n1, n2, ref, (A1, A2))
    return len(ref.edges) > 0


def s_iso(rng, k):
    n1, n2 = rng.randint(1, 5), rng.randint(1, 5)
    g = [gen_graph(rng, rng.randrange(1, N_EXHAUSTIVE), big=False) for _ in range(2)]
    note(["graphs", g])
    (n1, e1), (n2, e2) = g
    r1, r2 = Ref(n1, e1), Ref(n2, e2)
    G1, G2 = build(rng, n1, e1)[0], build(rng, n2, e2)[0]
    G = cm.IsoGraph(G1, G2)
    G.build_edges()
    ref = Ref(n1 * n2, corr_edges(n1, n2, lambda i, j, a, b: r1.has(i + 1, j + 1) or not r2.has(a + 1, b + 1)))
    check_graph(ref, G, "P13")
    om = ref.omega()

    def chk(r):
        expect(all(1 <= x <= n1 for x in r[0]) and all(1 <= x <= n2 for x in r[1]), "P13", "isomorphism %s leaves the graphs", r)
        expect(len(set(r[0])) == len(r[0]) == len(r[1]) == len(set(r[1])), "P13", "isomorphism %s is not one-to-one", r)
        for (i, a), (j, b) in itertools.combinations(list(zip(*r)), 2):
            expect(r1.has(i, j) or not r2.has(a, b), "P13", "edge %d-%d is mapped to %d-%d, which is not an edge", a, b, i, j)

    def chk_dict(d, r):
        D1, D2, m = d
        expect(m == dict(zip(*r)), "P13", "mapping %s does not match %s", m, r)
        inv = dict(zip(r[1], r[0]))
        for a in r[1]:
            nb = {b for b in r[1] if r2.has(a, b)}
            expect(set(D2[a]) == nb, "P13", "subgraph of the second graph has %d-%s, expected %s", a, D2[a], nb)
            expect(set(D1[inv[a]]) == {inv[b] for b in nb}, "P13", "subgraph of the first graph has %d-%s", inv[a], D1[inv[a]])
        expect(set(D1) == set(r[0]) and set(D2) == set(r[1]), "P13", "subgraphs on %s and %s for %s", set(D1), set(D2), r)
    note("get_correspondence")
    r = G.get_correspondence()
    chk(r)
    expect(len(r[0]) == om, "P13", "common subgraph of %d vertices, the maximum is %d", len(r[0]), om)
    G.reset_search()
    chk_dict(G.get_correspondence(return_indices=False), G.get_correspondence())
    s = rng.randint(2, om) if om >= 2 else 2
    note(["all_correspondences", s])
    got = list(G.all_correspondences(s))
    for r in got:
        chk(r)
    expect(len({tuple(sorted(zip(*r))) for r in got}) == len(got) == len(ref.cliques(s)), "P13",
           "all_correspondences(%d) gave %d of %d", s, len(got), len(ref.cliques(s)))
    for d, r in zip(G.all_correspondences(s, return_indices=False), got):
        chk_dict(d, r)
    return len(e1) > 0 and len(e2) > 0


OWNER = {"search": "P02", "history": "P10", "timed": "P03", "enum": "P04", "nw": "P05", "nwenum": "P06", "nwhistory": "P10",
         "load": "P07", "file": "P16", "errors": "P09", "corr": "P11", "iso": "P13"}
SUITES = {n[2:]: f for n, f in list(globals().items()) if n.startswith("s_")}


def main():
    global LABELS, SCRATCH, CASE_FD
    ap = argparse.ArgumentParser()
    ap.add_argument("suite")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--seconds", type=float, default=10)
    ap.add_argument("--limit", type=int, default=10 ** 9)
    ap.add_argument("--case", default="/dev/null")
    ap.add_argument("--index", type=int)
    ap.add_argument("--labels")
    ap.add_argument("--start", type=int, default=0)
    ap.add_argument("--stride", type=int, default=1)
    ap.add_argument("--min", type=int, default=0)
    a = ap.parse_args()
    LABELS = set(a.labels.split(",")) if a.labels else None
    SCRATCH = tempfile.mkdtemp(prefix="cmh")
    CASE_FD = os.open(a.case, os.O_RDWR | os.O_CREAT) if a.case != "/dev/null" else os.open(os.path.join(SCRATCH, "case"), os.O_RDWR | os.O_CREAT)
    f = SUITES[a.suite]
    t0 = time.time()
    ks = [a.index] if a.index is not None else itertools.count(a.start, a.stride)
    n = nontriv = 0
    seen = set()
    sample = None
    # the library reports the size of its workspace on stderr; keep that out of the way
    if a.index is None:
        os.dup2(os.open(os.path.join(SCRATCH, "err"), os.O_WRONLY | os.O_CREAT), 2)
    rc = 0
    try:
        for k in ks:
            if a.index is None and (time.time() - t0 > a.seconds and n >= a.min or n >= a.limit):
                break
            if a.index is None and n % 500 == 499:
                os.ftruncate(2, 0)
            DESC[:] = [{"suite": a.suite, "seed": a.seed, "index": k}]
            rng = random.Random("%s/%d/%d" % (a.suite, a.seed, k))
            try:
                try:
                    nt = f(rng, k)
                except (Fail, KeyboardInterrupt):
                    raise
                except Exception as e:
                    # whatever the library throws at a valid call belongs to the property the suite is about
                    expect(False, OWNER[a.suite], "%s: %s", type(e).__name__, str(e)[:300])
                    nt = False
            except Fail as e:
                put_case()
                print(json.dumps({"fail": e.label, "message": str(e), "case": DESC}, default=str))
                rc = 1
                break
            n += 1
            if nt:
                nontriv += 1
                seen.add(hashlib.md5(json.dumps(DESC[1:], default=str).encode()).digest())
                if sample is None or n % 101 == 0:
                    sample = DESC[:]
        if not rc:
            print(json.dumps({"ok": True, "evaluations": n, "distinct_nontrivial": len(seen), "bound": BOUND, "sample": sample,
                              "wall": time.time() - t0}, default=str))
    finally:
        import shutil
        shutil.rmtree(SCRATCH)
    sys.stdout.flush()
    return rc


if __name__ == "__main__":
    sys.exit(main())
