@lib
// the first n bits of a longer bitset
pub open spec fn cut(x: graphBits, n: int) -> graphBits { graphBits { valid_len: n as u64, pad_cover: pad_of(n), ..x } }
proof fn lemma_cut(a: Mem, b: Mem, x: graphBits, n: int)
    requires x.wfp(a), 0 < n <= x.n(), b.gen == a.gen, b@.len() == a@.len(),
    ensures cut(x, n).wfp(a), cut(x, n).wfp(b), cut(x, n).lo() == x.lo(), cut(x, n).hi() <= x.hi(), cut(x, n).n() == n, blen(n) <= blen(x.n()),
{}
proof fn lemma_cut_clear(a: Mem, b: Mem, x: graphBits, n: int)
    requires x.wfp(a), 0 < n <= x.n(), only_block(a, b, x),
        forall|k: int| 0 <= k < 64 * blen(x.n()) ==> #[trigger] bat(b@, x.lo(), k) == (n != 0 && k / 64 > n / 64 && bat(a@, x.lo(), k)),
    ensures cut(x, n).wf(b), cut(x, n).set_in(b) == Set::<int>::empty(),
{
    lemma_cut(a, b, x, n);
    let y = cut(x, n);
    assert forall|k: int| 0 <= k < 64 * blen(n) implies !#[trigger] bat(b@, x.lo(), k) by {}
    assert(y.set_in(b) =~= Set::<int>::empty());
}
proof fn lemma_cut_set(a: Mem, b: Mem, x: graphBits, n: int, i: int)
    requires x.wfp(a), 0 < n <= x.n(), only_block(a, b, x), 0 <= i < n, cut(x, n).wf(a),
        forall|k: int| 0 <= k < 64 * blen(x.n()) ==> #[trigger] bat(b@, x.lo(), k) == (bat(a@, x.lo(), k) || k == i),
    ensures cut(x, n).wf(b), cut(x, n).set_in(b) == cut(x, n).set_in(a).insert(i),
{
    lemma_cut(a, b, x, n);
    assert(cut(x, n).set_in(b) =~= cut(x, n).set_in(a).insert(i));
}
proof fn lemma_cut_reset(a: Mem, b: Mem, x: graphBits, n: int, i: int)
    requires x.wfp(a), 0 < n <= x.n(), only_block(a, b, x), 0 <= i < n, cut(x, n).wf(a),
        forall|k: int| 0 <= k < 64 * blen(x.n()) ==> #[trigger] bat(b@, x.lo(), k) == (bat(a@, x.lo(), k) && k != i),
    ensures cut(x, n).wf(b), cut(x, n).set_in(b) == cut(x, n).set_in(a).remove(i),
{
    lemma_cut(a, b, x, n);
    assert(cut(x, n).set_in(b) =~= cut(x, n).set_in(a).remove(i));
}
// where the two bitsets of the heuristic lie
pub open spec fn hpos(g0: nwgraph, g1: nwgraph, g: nwgraph, u: int, res: graphBits, cand: graphBits) -> bool {
    &&& gsrch(g0, g, u) && g0 == g1.base() && g1.gwf() && g.search_cur == g1.search_cur && g.zeros()
    &&& res.wfp(g.edge_bits) && cand.wfp(g.edge_bits) && res.n() == g1.max_neighbors && cand.n() == g1.max_neighbors
    &&& g1.search_start <= res.lo() && res.hi() <= g1.search_cur && g1.search_start <= cand.lo() && cand.hi() <= g1.search_cur
    &&& res.hi() <= cand.lo() || cand.hi() <= res.lo()
    &&& g.vertices@ == g1.vertices@ && g.edge_list@ == g1.edge_list@ && g.CLIQUE_LIMIT == g1.CLIQUE_LIMIT && g.sh() == g1.sh()
    &&& 1 <= u < g1.n_vert && u < g.vertices@.len() && g1.n_vert == g.vertices@.len()
}
pub open spec fn hst(g0: nwgraph, g1: nwgraph, g: nwgraph, u: int, res: graphBits, cand: graphBits, r: Set<int>, c: Set<int>) -> bool {
    let n = g0.sh().v[u].N;
    &&& hpos(g0, g1, g, u, res, cand) && 0 < n <= g1.max_neighbors
    &&& cut(res, n).wf(g.edge_bits) && cut(res, n).set_in(g.edge_bits) == r
    &&& cut(cand, n).wf(g.edge_bits) && cut(cand, n).set_in(g.edge_bits) == c
}
proof fn lemma_hpos_mem(g0: nwgraph, g1: nwgraph, a: nwgraph, b: nwgraph, u: int, res: graphBits, cand: graphBits, x: graphBits)
    requires hpos(g0, g1, a, u, res, cand), b == (nwgraph { edge_bits: b.edge_bits, ..a }), only_block(a.edge_bits, b.edge_bits, x), x == res || x == cand,
    ensures hpos(g0, g1, b, u, res, cand),
{ lemma_gs_mem(g0, a, b, u, x.lo(), x.hi()); }
proof fn lemma_hst_res(g0: nwgraph, g1: nwgraph, a: nwgraph, b: nwgraph, u: int, res: graphBits, cand: graphBits, r: Set<int>, c: Set<int>, i: int)
    requires hst(g0, g1, a, u, res, cand, r, c), b == (nwgraph { edge_bits: b.edge_bits, ..a }), only_block(a.edge_bits, b.edge_bits, res), 0 <= i < g0.sh().v[u].N,
        forall|k: int| 0 <= k < 64 * blen(res.n()) ==> #[trigger] bat(b.edge_bits@, res.lo(), k) == (bat(a.edge_bits@, res.lo(), k) || k == i),
    ensures hst(g0, g1, b, u, res, cand, r.insert(i), c),
{
    let n = g0.sh().v[u].N;
    lemma_hpos_mem(g0, g1, a, b, u, res, cand, res);
    lemma_cut_set(a.edge_bits, b.edge_bits, res, n, i);
    lemma_cut(a.edge_bits, b.edge_bits, cand, n);
    lemma_frame(a.edge_bits, b.edge_bits, cut(cand, n), res.lo(), res.hi());
}
proof fn lemma_hst_cand(g0: nwgraph, g1: nwgraph, a: nwgraph, b: nwgraph, u: int, res: graphBits, cand: graphBits, r: Set<int>, c: Set<int>, i: int, on: bool)
    requires hst(g0, g1, a, u, res, cand, r, c), b == (nwgraph { edge_bits: b.edge_bits, ..a }), only_block(a.edge_bits, b.edge_bits, cand), 0 <= i < g0.sh().v[u].N,
        forall|k: int| 0 <= k < 64 * blen(cand.n()) ==> #[trigger] bat(b.edge_bits@, cand.lo(), k) == (if k == i { on } else { bat(a.edge_bits@, cand.lo(), k) }),
    ensures hst(g0, g1, b, u, res, cand, r, if on { c.insert(i) } else { c.remove(i) }),
{
    let n = g0.sh().v[u].N;
    lemma_hpos_mem(g0, g1, a, b, u, res, cand, cand);
    if on { lemma_cut_set(a.edge_bits, b.edge_bits, cand, n, i); } else { lemma_cut_reset(a.edge_bits, b.edge_bits, cand, n, i); }
    lemma_cut(a.edge_bits, b.edge_bits, res, n);
    lemma_frame(a.edge_bits, b.edge_bits, cut(res, n), cand.lo(), cand.hi());
}
// both bitsets cleared
proof fn lemma_hst_start(g0: nwgraph, g1: nwgraph, a: nwgraph, b: nwgraph, c: nwgraph, u: int, res: graphBits, cand: graphBits)
    requires hpos(g0, g1, a, u, res, cand), 0 < g0.sh().v[u].N <= g1.max_neighbors,
        b == (nwgraph { edge_bits: b.edge_bits, ..a }), only_block(a.edge_bits, b.edge_bits, res),
        c == (nwgraph { edge_bits: c.edge_bits, ..b }), only_block(b.edge_bits, c.edge_bits, cand),
        forall|k: int| 0 <= k < 64 * blen(res.n()) ==> #[trigger] bat(b.edge_bits@, res.lo(), k) == (k / 64 > g0.sh().v[u].N / 64 && bat(a.edge_bits@, res.lo(), k)),
        forall|k: int| 0 <= k < 64 * blen(cand.n()) ==> #[trigger] bat(c.edge_bits@, cand.lo(), k) == (k / 64 > g0.sh().v[u].N / 64 && bat(b.edge_bits@, cand.lo(), k)),
    ensures hst(g0, g1, c, u, res, cand, Set::empty(), Set::empty()),
{
    let n = g0.sh().v[u].N;
    lemma_hpos_mem(g0, g1, a, b, u, res, cand, res);
    lemma_hpos_mem(g0, g1, b, c, u, res, cand, cand);
    lemma_cut_clear(a.edge_bits, b.edge_bits, res, n);
    lemma_cut_clear(b.edge_bits, c.edge_bits, cand, n);
    lemma_cut(b.edge_bits, c.edge_bits, res, n);
    lemma_frame(b.edge_bits, c.edge_bits, cut(res, n), cand.lo(), cand.hi());
}
proof fn lemma_hst_record(g0: nwgraph, g1: nwgraph, a: nwgraph, b: nwgraph, u: int, res: graphBits, cand: graphBits, r: Set<int>, c: Set<int>)
    requires hst(g0, g1, a, u, res, cand, r, c), b == (nwgraph { edge_bits: b.edge_bits, CUR_MAX_CLIQUE_SIZE: b.CUR_MAX_CLIQUE_SIZE, CUR_MAX_CLIQUE_LOCATION: b.CUR_MAX_CLIQUE_LOCATION, ..a }),
        only_block(a.edge_bits, b.edge_bits, a.vertices@[u].bits), wof(g0.sh(), u, r) > a.CUR_MAX_CLIQUE_SIZE@, b.CUR_MAX_CLIQUE_SIZE@ == wof(g0.sh(), u, r), b.CUR_MAX_CLIQUE_LOCATION == u, g0.sh().rclq(u, r),
        forall|k: int| 0 <= k < 64 * blen(g0.sh().v[u].N) ==> #[trigger] bat(b.edge_bits@, a.vertices@[u].bits.lo(), k) == bat(a.edge_bits@, res.lo(), k),
    ensures hpos(g0, g1, b, u, res, cand),
{
    let n = g0.sh().v[u].N; let x = a.vertices@[u].bits;
    lemma_gs_zero(g0, a, u);
    lemma_root(g0, u);
    assert(n <= 64 * blen(n));
    assert(x.set_in(b.edge_bits) =~= r) by {
        assert forall|k: int| 0 <= k < n implies x.set_in(b.edge_bits).contains(k) == r.contains(k) by {
            assert(bat(b.edge_bits@, x.lo(), k) == bat(a.edge_bits@, res.lo(), k));
            assert(cut(res, n).set_in(a.edge_bits).contains(k) == bat(a.edge_bits@, res.lo(), k));
        }
    }
    assert(x.clean(b.edge_bits)) by {
        assert forall|i: int| x.valid_len <= i < 64 * blen(x.valid_len as int) implies !#[trigger] bat(b.edge_bits@, x.data.off as int, i) by {
            assert(bat(b.edge_bits@, x.lo(), i) == bat(a.edge_bits@, res.lo(), i));
            assert(!bat(a.edge_bits@, cut(res, n).data.off as int, i));
        }
    }
    lemma_gs_record(g0, a, b, u, r);
}
// the entries of v name different candidates
pub open spec fn nbr1(s: Sh, u: int, x: NWHeuristic_vdata) -> bool {
    0 <= x.pos < s.v[u].N && x.pos != s.v[u].spos && s.rin(u, x.pos as int) && x.id == s.nb(u, x.pos as int)
}
pub open spec fn haspos(v: Seq<NWHeuristic_vdata>, n: int, x: int) -> bool { exists|a: int| 0 <= a < n && #[trigger] v[a].pos == x }
#[verifier::opaque]
pub open spec fn nbr(s: Sh, u: int, v: Seq<NWHeuristic_vdata>, n: int, c: Set<int>) -> bool {
    &&& 0 <= n <= v.len() && c.len() == n
    &&& forall|a: int| 0 <= a < n ==> #[trigger] nbr1(s, u, v[a])
    &&& forall|a: int, b: int| 0 <= a < b < n ==> #[trigger] v[a].pos != #[trigger] v[b].pos
    &&& forall|x: int| #[trigger] c.contains(x) ==> haspos(v, n, x)
}
proof fn lemma_nbr_start(s: Sh, u: int, v: Seq<NWHeuristic_vdata>)
    ensures nbr(s, u, v, 0, rset0(s, u, 0)),
{ reveal(nbr); lemma_rset0(s, u, 0); }
proof fn lemma_nbr_skip(s: Sh, u: int, v: Seq<NWHeuristic_vdata>, w: Seq<NWHeuristic_vdata>, n: int, i: int)
    requires nbr(s, u, v, n, rset0(s, u, i)), w.len() == v.len(), forall|a: int| 0 <= a < n ==> #[trigger] w[a] == v[a], 0 <= i, !s.rin(u, i) || i == s.v[u].spos,
    ensures nbr(s, u, w, n, rset0(s, u, i + 1)),
{
    reveal(nbr); lemma_rset0(s, u, i);
    let c = rset0(s, u, i + 1);
    assert forall|x: int| #[trigger] c.contains(x) implies haspos(w, n, x) by {
        assert(haspos(v, n, x));
        let a = choose|a: int| 0 <= a < n && #[trigger] v[a].pos == x; assert(w[a].pos == x);
    }
}
proof fn lemma_nbr_add(s: Sh, u: int, v: Seq<NWHeuristic_vdata>, w: Seq<NWHeuristic_vdata>, n: int, i: int)
    requires nbr(s, u, v, n, rset0(s, u, i)), w.len() == v.len(), n < v.len(), forall|a: int| 0 <= a < n ==> #[trigger] w[a] == v[a],
        0 <= i, w[n].pos == i, nbr1(s, u, w[n]),
    ensures nbr(s, u, w, n + 1, rset0(s, u, i + 1)),
{
    reveal(nbr); lemma_rset0(s, u, i);
    let c = rset0(s, u, i + 1); let c0 = rset0(s, u, i);
    assert forall|x: int| #[trigger] c.contains(x) implies haspos(w, n + 1, x) by {
        if x == i { assert(w[n].pos == x); }
        else {
            assert(c0.contains(x)); assert(haspos(v, n, x));
            let a = choose|a: int| 0 <= a < n && #[trigger] v[a].pos == x; assert(w[a].pos == x);
        }
    }
    lemma_nbr_in(s, u, v, n, c0);
    assert forall|a: int, b: int| 0 <= a < b < n + 1 implies #[trigger] w[a].pos != #[trigger] w[b].pos by {
        if b == n { assert(c0.contains(v[a].pos as int)); }
    }
}
// n different positions that cover the n elements of c are in c
proof fn lemma_nbr_in(s: Sh, u: int, v: Seq<NWHeuristic_vdata>, n: int, c: Set<int>)
    requires nbr(s, u, v, n, c),
    ensures forall|a: int| 0 <= a < n ==> c.contains(#[trigger] v[a].pos as int),
{
    reveal(nbr);
    let p = Seq::new(n as nat, |a: int| v[a].pos as int);
    p.unique_seq_to_set();
    assert forall|x: int| #[trigger] c.contains(x) implies p.to_set().contains(x) by {
        let a = choose|a: int| 0 <= a < n && #[trigger] v[a].pos == x; assert(p[a] == x);
    }
    lemma_subset_equality(c, p.to_set());
    assert forall|a: int| 0 <= a < n implies c.contains(#[trigger] v[a].pos as int) by { assert(p[a] == v[a].pos); assert(p.to_set().contains(p[a])); }
}
proof fn lemma_nbr_sort(s: Sh, u: int, v: Seq<NWHeuristic_vdata>, w: Seq<NWHeuristic_vdata>, n: int, c: Set<int>)
    requires nbr(s, u, v, n, c), shuffled(v, w, 0, n),
    ensures nbr(s, u, w, n, c),
{
    reveal(nbr);
    let (p, q) = choose|p: Seq<int>, q: Seq<int>| #[trigger] shuffled_by(v, w, 0, n, p, q);
    assert forall|a: int| 0 <= a < n implies #[trigger] nbr1(s, u, w[a]) by { assert(0 <= p[a] < n); assert(nbr1(s, u, v[p[a]])); }
    assert forall|a: int, b: int| 0 <= a < b < n implies #[trigger] w[a].pos != #[trigger] w[b].pos by {
        assert(0 <= p[a] < n && 0 <= p[b] < n && q[p[a]] == a && q[p[b]] == b);
        if p[a] < p[b] { assert(v[p[a]].pos != v[p[b]].pos); } else { assert(v[p[b]].pos != v[p[a]].pos); }
    }
    assert forall|x: int| #[trigger] c.contains(x) implies haspos(w, n, x) by {
        assert(haspos(v, n, x));
        let a = choose|a: int| 0 <= a < n && #[trigger] v[a].pos == x;
        assert(0 <= q[a] < n && p[q[a]] == a); assert(w[q[a]].pos == x);
    }
}
// what is left of the candidates while entry i is tried: only entries not before j, and those adjacent to i
pub open spec fn left(s: Sh, u: int, v: Seq<NWHeuristic_vdata>, n: int, i: int, c: Set<int>) -> bool {
    &&& 0 <= i <= n && forall|a: int| 0 <= a < i ==> !c.contains(#[trigger] v[a].pos as int)
    &&& forall|x: int| #[trigger] c.contains(x) ==> haspos(v, n, x)
}
pub open spec fn tried(s: Sh, u: int, v: Seq<NWHeuristic_vdata>, i: int, j: int, c: Set<int>) -> bool {
    forall|a: int| i < a < j && c.contains(#[trigger] v[a].pos as int) ==> s.adj(v[i].id as int, v[a].id as int)
}
proof fn lemma_tried(s: Sh, u: int, v: Seq<NWHeuristic_vdata>, n: int, i: int, c0: Set<int>, c: Set<int>, nc: Set<int>)
    requires nbr(s, u, v, n, nc), left(s, u, v, n, i, c0), i < n, forall|x: int| #[trigger] c.contains(x) ==> c0.contains(x) && x != v[i].pos, tried(s, u, v, i, n, c),
    ensures left(s, u, v, n, i + 1, c), forall|x: int| #[trigger] c.contains(x) ==> s.adj(s.nb(u, v[i].pos as int), s.nb(u, x)),
{
    reveal(nbr);
    assert forall|x: int| #[trigger] c.contains(x) implies s.adj(s.nb(u, v[i].pos as int), s.nb(u, x)) by {
        assert(haspos(v, n, x));
        let a = choose|a: int| 0 <= a < n && #[trigger] v[a].pos == x;
        assert(nbr1(s, u, v[a]) && nbr1(s, u, v[i]));
        if a < i { assert(!c0.contains(v[a].pos as int)); }
        assert(a > i);
        assert(c.contains(v[a].pos as int));
    }
    assert forall|a: int| 0 <= a < i + 1 implies !c.contains(#[trigger] v[a].pos as int) by {
        if a < i && c.contains(v[a].pos as int) { assert(c0.contains(v[a].pos as int)); }
    }
}
proof fn lemma_nbr_at(s: Sh, u: int, v: Seq<NWHeuristic_vdata>, n: int, i: int, c: Set<int>)
    requires nbr(s, u, v, n, c), 0 <= i < n, s.ok(), 0 <= u < s.n(),
    ensures nbr1(s, u, v[i]), n <= v.len(), 0 <= v[i].id < s.n(),
{ reveal(nbr); assert(s.vok(u)); }
proof fn lemma_left_start(s: Sh, u: int, v: Seq<NWHeuristic_vdata>, n: int, c: Set<int>)
    requires nbr(s, u, v, n, c),
    ensures left(s, u, v, n, 0, c), c.len() == n,
{ reveal(nbr); }

@fn NWHeuristic::process_vertex(G, cur, res, cand)
@locals u64 ans, u64 i, u64 j
@requires
    old(G).gwf(), 1 <= cur < old(G).n_vert, hpos(old(G).base(), *old(G), *old(G), cur as int, *res, *cand),
    old(self).neighbors@.len() >= old(G).max_neighbors,
@ensures
    hpos(old(G).base(), *old(G), *final(G), cur as int, *res, *cand),
    final(self).neighbors@.len() >= old(G).max_neighbors, final(self).request_size == old(self).request_size,
@loop 1
@invariant
    r == set![s.v[u].spos],     u == cur, g1 == *old(G), s == g0.sh(), n == s.v[u].N, s.ok(), hst(g0, g1, *G, u, *res, *cand, set![s.v[u].spos], rset0(s, u, i as int)), j == self.candidates_left, j <= i, i <= s.v[u].spos < n,
    G.vertices@[u].N == n, G.vertices@[u].spos == s.v[u].spos, self.cur_clique_weight@ == wof(s, u, r), self.cand_potential@ == wof(s, u, rset0(s, u, i as int)),
    self.neighbors@.len() >= g1.max_neighbors, self.request_size == old(self).request_size, nbr(s, u, self.neighbors@, j as int, rset0(s, u, i as int)),
@loop_decreases
    n - i
@loop 2
@invariant
    r == set![s.v[u].spos],     u == cur, g1 == *old(G), s == g0.sh(), n == s.v[u].N, s.ok(), hst(g0, g1, *G, u, *res, *cand, set![s.v[u].spos], rset0(s, u, i as int)), j == self.candidates_left, j <= i, s.v[u].spos < i <= n,
    G.vertices@[u].N == n, G.vertices@[u].spos == s.v[u].spos, self.cur_clique_weight@ == wof(s, u, r), self.cand_potential@ == wof(s, u, rset0(s, u, i as int)),
    self.neighbors@.len() >= g1.max_neighbors, self.request_size == old(self).request_size, nbr(s, u, self.neighbors@, j as int, rset0(s, u, i as int)),
@loop_decreases
    n - i
@loop 3
@invariant
    u == cur, g1 == *old(G), s == g0.sh(), n == s.v[u].N, s.ok(), hpos(g0, g1, *G, u, *res, *cand),
    self.neighbors@.len() >= g1.max_neighbors, self.request_size == old(self).request_size, nbr(s, u, self.neighbors@, self.cand_max as int, rset0(s, u, n)),
@invariant_except_break
    i <= self.cand_max, hst(g0, g1, *G, u, *res, *cand, r, c), grow(s, u, r, c), self.cur_clique_weight@ == wof(s, u, r), self.cand_potential@ == wof(s, u, c), c.len() == self.candidates_left,
    left(s, u, self.neighbors@, self.cand_max as int, i as int, c), G.CUR_MAX_CLIQUE_SIZE == g1.CUR_MAX_CLIQUE_SIZE,
@loop_ensures
    hpos(g0, g1, *G, u, *res, *cand), self.neighbors@.len() >= g1.max_neighbors, self.request_size == old(self).request_size,
@loop_decreases
    self.cand_max - i
@loop 4
@invariant
    u == cur, s == g0.sh(), n == s.v[u].N, s.ok(), hst(g0, g1, *G, u, *res, *cand, r2, c), nbr(s, u, self.neighbors@, self.cand_max as int, rset0(s, u, n)),
    *self == (NWHeuristic { candidates_left: self.candidates_left, cand_potential: self.cand_potential, ..d3 }), *G == (nwgraph { edge_bits: G.edge_bits, ..g3 }), i < j <= self.cand_max, c.len() == self.candidates_left, self.cand_potential@ == wof(s, u, c),
    forall|x: int| #[trigger] c.contains(x) ==> c0.contains(x) && x != self.neighbors@[i as int].pos, tried(s, u, self.neighbors@, i as int, j as int, c),
    left(s, u, self.neighbors@, self.cand_max as int, i as int, c0),
@loop_decreases
    self.cand_max - j
@at begin
    let ghost g1 = *G; let ghost g0 = G.base(); let ghost s = G.sh(); let ghost u = cur as int; let ghost n = s.v[u].N;
    let ghost mut r = set![s.v[u].spos]; let ghost mut c = Set::<int>::empty(); let ghost mut c0 = c; let ghost mut r2 = r; let ghost mut d3 = *self; let ghost mut g3 = *G;
    proof { lemma_root(g1, u); lemma_grow_root(s, u); lemma_w_root(s, u); lemma_w_empty(s, u, rset0(s, u, 0), n); }
@at after /res\.clear\(/
    let ghost ga = *G;
@at after /cand\.clear\(/
    let ghost gb = *G;
    proof { lemma_hst_start(g0, g1, g1, ga, *G, u, *res, *cand); }
@at loop 1 before
    proof {
        lemma_hst_res(g0, g1, gb, *G, u, *res, *cand, Set::empty(), Set::empty(), s.v[u].spos);
        lemma_rset0(s, u, 0);
        lemma_nbr_start(s, u, self.neighbors@);
    }
@at loop 1 begin
    let ghost ga = *G; let ghost va = self.neighbors@;
    proof { lemma_root(g1, u); lemma_gs_zero(g0, *G, u); lemma_count_step(*G, u, i as int); lemma_rset0(s, u, i as int); }
@at loop 1 body_end
    proof {
        if s.rin(u, i as int) { lemma_hst_cand(g0, g1, ga, *G, u, *res, *cand, r, rset0(s, u, i as int), i as int, true); lemma_nbr_add(s, u, va, self.neighbors@, j - 1, i as int); lemma_w_insert(s, u, rset0(s, u, i as int), i as int, n); }
        else { lemma_nbr_skip(s, u, va, self.neighbors@, j as int, i as int); }
    }
@at loop 1 after
    proof { lemma_rset0(s, u, i as int); lemma_nbr_skip(s, u, self.neighbors@, self.neighbors@, j as int, i as int); lemma_root(g1, u); }
@at loop 2 begin
    let ghost ga = *G; let ghost va = self.neighbors@;
    proof { lemma_root(g1, u); lemma_gs_zero(g0, *G, u); lemma_count_step(*G, u, i as int); lemma_rset0(s, u, i as int); }
@at loop 2 body_end
    proof {
        if s.rin(u, i as int) { lemma_hst_cand(g0, g1, ga, *G, u, *res, *cand, r, rset0(s, u, i as int), i as int, true); lemma_nbr_add(s, u, va, self.neighbors@, j - 1, i as int); lemma_w_insert(s, u, rset0(s, u, i as int), i as int, n); }
        else { lemma_nbr_skip(s, u, va, self.neighbors@, j as int, i as int); }
    }
@at loop 2 after
    let ghost va = self.neighbors@;
@at loop 3 before
    proof {
        c = rset0(s, u, n);
        lemma_nbr_sort(s, u, va, self.neighbors@, self.cand_max as int, c);
        lemma_left_start(s, u, self.neighbors@, self.cand_max as int, c);
    }
@at loop 3 begin
    let ghost ga = *G; let ghost pi = self.neighbors@[i as int].pos as int;
    proof { lemma_gs_zero(g0, *G, u); lemma_root(g0, u); lemma_nbr_at(s, u, self.neighbors@, self.cand_max as int, i as int, rset0(s, u, n)); c0 = c; r2 = r.insert(pi); }
@at after /res\.set\(t_/ 2
    let ghost gb = *G;
    proof { lemma_hst_res(g0, g1, ga, *G, u, *res, *cand, r, c, pi); lemma_grow_add(s, u, r, c, pi, Set::empty()); lemma_w_insert(s, u, r, pi, n); }
@at loop 4 before
    proof {
        lemma_hst_cand(g0, g1, gb, *G, u, *res, *cand, r2, c, pi, false);
        lemma_w_remove(s, u, c, pi, n);
        c = c.remove(pi);
        d3 = *self; g3 = *G;
    }
@at loop 4 begin
    let ghost ge = *G; let ghost pj = self.neighbors@[j as int].pos as int;
    proof {
        lemma_gs_zero(g0, *G, u); lemma_root(g0, u);
        lemma_nbr_at(s, u, self.neighbors@, self.cand_max as int, i as int, rset0(s, u, n)); lemma_nbr_at(s, u, self.neighbors@, self.cand_max as int, j as int, rset0(s, u, n));
    }
@at after /cand\.reset\(t_/ 2
    proof { lemma_hst_cand(g0, g1, ge, *G, u, *res, *cand, r2, c, pj, false); lemma_w_remove(s, u, c, pj, n); c = c.remove(pj); }
@at loop 4 after
    let ghost gf = *G;
    proof {
        lemma_tried(s, u, self.neighbors@, self.cand_max as int, i as int, c0, c, rset0(s, u, n));
        lemma_grow_add(s, u, r, c0, pi, c);
        r = r2;
        lemma_gs_zero(g0, *G, u); lemma_root(g0, u); if c.len() == 0 { assert(c =~= Set::empty()); lemma_w_empty(s, u, c, n); }
    }
@at after /\.bits\.copy_data\(res/
    proof { lemma_hst_record(g0, g1, gf, *G, u, *res, *cand, r, c); }

@lib
proof fn lemma_hroom(g: nwgraph)
    requires g.gwf(), g.n_vert >= 2,
    ensures ({
        let mb = blen(g.max_neighbors as int);
        &&& g.search_start + 2 * mb < g.edge_bits@.len() < 0x1000_0000_0000 && (if g.max_neighbors % 64 != 0 { 1int } else { 0int }) + g.max_neighbors / 64 == mb
        &&& 1 <= mb <= g.max_neighbors <= 0x1_0000_0000 && 0 < g.max_neighbors
    }),
{
    lemma_root(g, 1);
    let rc = g.max_depth as int; let mb = blen(g.max_neighbors as int);
    assert(g.vlay(1));
    lemma_blen64(g.max_neighbors);
    assert(4 * mb <= 2 * (rc + 1) * mb) by(nonlinear_arith) requires rc >= 1, mb >= 0;
}
// two blocks taken from the search memory
proof fn lemma_hstart(g0: nwgraph, g: nwgraph, u: int, res: graphBits, cand: graphBits)
    requires g0.gwf(), g0.n_vert >= 2, g0.search_cur == g0.search_start, g == (nwgraph { search_cur: g.search_cur, ..g0 }), g.search_cur == g0.search_start + 2 * blen(g0.max_neighbors as int),
        res.wfp(g.edge_bits), cand.wfp(g.edge_bits), res.n() == g0.max_neighbors, cand.n() == g0.max_neighbors, 1 <= u < g0.n_vert,
        g.search_start <= res.lo(), res.hi() <= g.search_cur, g.search_start <= cand.lo(), cand.hi() <= g.search_cur, res.hi() <= cand.lo() || cand.hi() <= res.lo(),
    ensures g.gwf(), searched_all(g0, g.base()), hpos(g.base(), g, g, u, res, cand),
{
    lemma_root(g0, u); lemma_hroom(g0);
    lemma_gs_start(g0, u);
    lemma_gs_mem(g0, g0, g, u, g0.search_cur as int, g0.search_cur as int);
    lemma_gs_end(g0, g, g, u);
    lemma_gs_start(g, u);
    assert(g.base() == g0);
    lemma_all_start(g0);
}
// from one vertex to the next
proof fn lemma_hstep(g0: nwgraph, a: nwgraph, b: nwgraph, u: int, w: int, res: graphBits, cand: graphBits)
    requires hpos(a.base(), a, b, u, res, cand), searched_all(g0, a.base()), 1 <= w < a.n_vert, a.search_cur <= a.edge_bits@.len(),
    ensures b.gwf(), searched_all(g0, b.base()), hpos(b.base(), b, b, w, res, cand), b.search_cur == a.search_cur, b.n_vert == a.n_vert, b.max_neighbors == a.max_neighbors,
        b.search_start == a.search_start, b.CUR_MAX_CLIQUE_SIZE@ >= a.CUR_MAX_CLIQUE_SIZE@,
{
    lemma_gs_zero(a.base(), b, u);
    lemma_gs_end(a.base(), b, b, u);
    lemma_all_step(g0, a.base(), b.base(), u);
    lemma_gs_start(b, w);
}
proof fn lemma_hend(g0: nwgraph, a: nwgraph, b: nwgraph)
    requires a.gwf(), a.n_vert >= 2, searched_all(g0, a.base()), b == (nwgraph { edge_bits: b.edge_bits, search_cur: b.search_cur, ..a }), b.search_cur == b.search_start,
        b.edge_bits.gen == a.edge_bits.gen, same_outside(a.edge_bits@, b.edge_bits@, a.search_start as int, a.search_cur as int),
        forall|k: int| b.search_cur <= k < a.search_cur ==> #[trigger] b.edge_bits@[k] == 0,
    ensures b.gwf(), searched_all(g0, b),
{
    lemma_gs_start(a, 1);
    lemma_gs_mem(a.base(), a, b, 1, a.search_start as int, a.search_cur as int);
    lemma_gs_end(a.base(), b, b, 1);
    lemma_all_step(g0, a.base(), b, 1);
}

@fn NWHeuristic::process_graph(G)
@locals u64 i, graphBits res, graphBits cand
@requires
    old(G).gwf(), old(G).n_vert >= 2, old(G).search_cur == old(G).search_start,
@ensures
    final(G).gwf(), searched_all(*old(G), *final(G)),
@loop 1
@invariant
    1 <= i <= G.n_vert, G.gwf(), G.n_vert >= 2, searched_all(g0, G.base()), g0 == *old(G), g0.search_cur == g0.search_start,
    self.request_size == mb, mb == blen(G.max_neighbors as int), self.neighbors@.len() >= G.max_neighbors, G.search_cur == G.search_start + 2 * mb,
    hpos(G.base(), *G, *G, 1, res, cand),
@loop_decreases
    G.n_vert - i
@at begin
    let ghost g0 = *G; let ghost mb = blen(G.max_neighbors as int);
    proof { lemma_root(*G, 1); lemma_all_start(*G); lemma_hroom(*G); }
@at before /self\.process_vertex\(G, G/
    let ghost ga = *G;
    proof { lemma_hstart(g0, *G, g0.CUR_MAX_CLIQUE_LOCATION as int, res, cand); }
@at loop 1 before
    proof { lemma_hstep(g0, ga, *G, g0.CUR_MAX_CLIQUE_LOCATION as int, 1, res, cand); }
@at loop 1 begin
    let ghost ga = *G;
    proof { lemma_hstep(g0, *G, *G, 1, i as int, res, cand); }
@at after /self\.process_vertex\(G, i/
    proof { lemma_hstep(g0, ga, *G, i as int, 1, res, cand); }
@at loop 1 after
    let ghost g9 = *G;
    proof { lemma_hroom(*G); }
@at end
    proof { lemma_hend(g0, g9, *G); }
