@class IsoGraph base: pygraph; S1: pygraph; S2: pygraph
@enum IsoAnswer Indices(Pair<Vec<u64>, Vec<u64>>); Dicts(Triple<Dict<StdSet>, Dict<StdSet>, Dict<u64>>)
@enum Wrapper Indices(IsoGraph); Dicts(IsoGraph)
@class WrappedIterator _it: CorrespondenceIterator; _wrapper: Wrapper
@lib
// ---- isomorphism graphs
pub open spec fn iso_adj(s: Sh, g1: pygraph, g2: pygraph) -> bool {
    &&& s.n() == g1.nvert * g2.nvert + 1
    &&& forall|x: int, y: int| #[trigger] s.adj(x, y) == ((0 <= x == y <= g1.nvert * g2.nvert) || isoc(g1.g().sh(), g2.g().sh(), x, y))
}
// two loaded graphs
pub open spec fn two(g1: pygraph, g2: pygraph) -> bool { g1.pwf() && g2.pwf() && g1.loaded() && g2.loaded() && g1.nvert * g2.nvert < 0xFFFF_FFF0 }
impl IsoGraph {
    // either no edges were built, or those of the property
    pub open spec fn ok(self) -> bool {
        &&& self.base.pwf() && self.S1.pwf() && self.S2.pwf() && self.S1.nvert * self.S2.nvert < 0xFFFF_FFF0
        &&& self.base.loaded() ==> self.S1.loaded() && self.S2.loaded() && iso_adj(self.base.g().sh(), self.S1, self.S2)
    }
}
// vertices of either graph, numbered from 1, none of them twice, every edge of the second graph on one of the first
pub open spec fn mapped(p: Seq<u64>, q: Seq<u64>, g1: pygraph, g2: pygraph) -> bool {
    &&& p.len() == q.len()
    &&& forall|k: int| 0 <= k < p.len() ==> 1 <= #[trigger] p[k] <= g1.nvert && 1 <= q[k] <= g2.nvert
    &&& forall|k: int, l: int| 0 <= k < l < p.len() ==> #[trigger] p[k] != #[trigger] p[l] && q[k] != q[l]
    &&& forall|k: int, l: int| 0 <= k < p.len() && 0 <= l < p.len() && k != l && #[trigger] g2.g().sh().adj(q[k] as int, q[l] as int) ==> g1.g().sh().adj(p[k] as int, p[l] as int)
}
// the pairs that the vertices in c stand for
pub open spec fn ends1(c: Seq<u64>, n2: int) -> Seq<u64> { Seq::new(c.len(), |k: int| dec1(c[k] as int, n2) as u64) }
pub open spec fn ends2(c: Seq<u64>, n2: int) -> Seq<u64> { Seq::new(c.len(), |k: int| dec2(c[k] as int, n2) as u64) }
pub open spec fn found(g1: pygraph, g2: pygraph, c: Seq<u64>, p: Seq<u64>, q: Seq<u64>) -> bool { p == ends1(c, g2.nvert as int) && q == ends2(c, g2.nvert as int) && mapped(p, q, g1, g2) }
// each one more than
pub open spec fn above(p: Seq<u64>, a: Seq<u64>) -> bool { p.len() == a.len() && forall|k: int| 0 <= k < p.len() ==> #[trigger] p[k] == a[k] + 1 }
// the dictionaries say which vertex goes where and which edges of the second graph lie between them
pub open spec fn dicts_of(t: Triple<Dict<StdSet>, Dict<StdSet>, Dict<u64>>, p: Seq<u64>, q: Seq<u64>, s2: Sh) -> bool {
    &&& forall|x: u64| #[trigger] t.first@.dom().contains(x) == p.contains(x)
    &&& forall|x: u64| #[trigger] t.second@.dom().contains(x) == q.contains(x)
    &&& forall|x: u64| #[trigger] t.third@.dom().contains(x) == p.contains(x)
    &&& forall|k: int| 0 <= k < p.len() ==> t.third@[#[trigger] p[k]] == q[k]
    &&& forall|k: int| 0 <= k < p.len() ==> sub2(t.second@[#[trigger] q[k]]@, q, s2, q[k])
    &&& forall|k: int| 0 <= k < p.len() ==> sub1(t.first@[#[trigger] p[k]]@, t.second@[q[k]]@, p, q)
}
// x is one of the first n
pub open spec fn oneof(l: Seq<u64>, n: int, x: u64) -> bool { exists|k: int| 0 <= k < n && #[trigger] l[k] == x }
pub proof fn lemma_oneof(l: Seq<u64>, n: int)
    ensures forall|x: u64| #[trigger] oneof(l, n + 1, x) == (oneof(l, n, x) || (n >= 0 && x == l[n])),
{
    assert forall|x: u64| #[trigger] oneof(l, n + 1, x) == (oneof(l, n, x) || (n >= 0 && x == l[n])) by {
        if oneof(l, n, x) { let k = choose|k: int| 0 <= k < n && #[trigger] l[k] == x; assert(l[k] == x); }
    }
}
pub proof fn lemma_contains(l: Seq<u64>)
    ensures forall|x: u64| #[trigger] oneof(l, l.len() as int, x) == l.contains(x),
{}
pub proof fn lemma_sub(p: Seq<u64>, q: Seq<u64>, inv: Map<u64, u64>, a: Set<u64>, b: Set<u64>)
    requires p.len() == q.len(), forall|k: int| 0 <= k < p.len() ==> inv[#[trigger] q[k]] == p[k],
        forall|k: int, l: int| 0 <= k < l < p.len() ==> #[trigger] p[k] != #[trigger] p[l] && q[k] != q[l],
        forall|x: u64| #[trigger] b.contains(x) ==> q.contains(x),
        forall|y: u64| #[trigger] a.contains(y) == (exists|x: u64| #[trigger] b.contains(x) && y == inv[x]),
    ensures sub1(a, b, p, q),
{
    assert forall|y: u64| #[trigger] a.contains(y) implies p.contains(y) by {
        let x = choose|x: u64| #[trigger] b.contains(x) && y == inv[x];
        let k = choose|k: int| 0 <= k < q.len() && q[k] == x; assert(inv[q[k]] == p[k]);
    }
    assert forall|l: int| 0 <= l < p.len() implies #[trigger] a.contains(p[l]) == b.contains(q[l]) by {
        assert(inv[q[l]] == p[l]);
        if a.contains(p[l]) {
            let x = choose|x: u64| #[trigger] b.contains(x) && p[l] == inv[x];
            let k = choose|k: int| 0 <= k < q.len() && q[k] == x; assert(inv[q[k]] == p[k]);
            if k < l { assert(p[k] != p[l]); } else if l < k { assert(p[l] != p[k]); }
        }
    }
}
pub open spec fn sub2(s: Set<u64>, q: Seq<u64>, s2: Sh, y: u64) -> bool { forall|x: u64| #[trigger] s.contains(x) == (q.contains(x) && x != y && s2.adj(y as int, x as int)) }
pub open spec fn sub1(a: Set<u64>, b: Set<u64>, p: Seq<u64>, q: Seq<u64>) -> bool {
    (forall|x: u64| #[trigger] a.contains(x) ==> p.contains(x)) && forall|l: int| 0 <= l < p.len() ==> #[trigger] a.contains(p[l]) == b.contains(q[l])
}
pub open spec fn answered(g1: pygraph, g2: pygraph, c: Seq<u64>, a: IsoAnswer, ri: bool) -> bool {
    match a {
        IsoAnswer::Indices(p) => ri && found(g1, g2, c, p.first@, p.second@),
        IsoAnswer::Dicts(t) => !ri && found(g1, g2, c, ends1(c, g2.nvert as int), ends2(c, g2.nvert as int)) && dicts_of(t, ends1(c, g2.nvert as int), ends2(c, g2.nvert as int), g2.g().sh()),
    }
}
pub proof fn lemma_found(s: Sh, g1: pygraph, g2: pygraph, c: Seq<u64>, a: Seq<u64>, b: Seq<u64>)
    requires s.ok(), two(g1, g2), iso_adj(s, g1, g2), clq_list(s, c), decoded(c, g2.nvert as int, a, b),
    ensures
        a.len() == b.len() == c.len(), forall|k: int| 0 <= k < a.len() ==> #[trigger] a[k] < g1.nvert, forall|k: int| 0 <= k < b.len() ==> #[trigger] b[k] < g2.nvert,
        forall|p: Seq<u64>, q: Seq<u64>| #![trigger mapped(p, q, g1, g2)] #![trigger found(g1, g2, c, p, q)] above(p, a) && above(q, b) ==> mapped(p, q, g1, g2) && found(g1, g2, c, p, q)
            && p == ends1(c, g2.nvert as int) && q == ends2(c, g2.nvert as int),
{
    let s1 = g1.g().sh(); let s2 = g2.g().sh();
    lemma_iso_map(s, s1, s2, c, a, b);
    assert(s2.n() - 1 == g2.nvert && s1.n() - 1 == g1.nvert);
    assert forall|k: int| 0 <= k < b.len() implies #[trigger] b[k] < g2.nvert by { assert(a[k] < g1.nvert && b[k] < g2.nvert); }
    assert forall|p: Seq<u64>, q: Seq<u64>| #![trigger mapped(p, q, g1, g2)] #![trigger found(g1, g2, c, p, q)] above(p, a) && above(q, b) implies mapped(p, q, g1, g2) && found(g1, g2, c, p, q)
            && p == ends1(c, g2.nvert as int) && q == ends2(c, g2.nvert as int) by {
        assert forall|k: int| 0 <= k < c.len() implies (#[trigger] p[k] == ends1(c, g2.nvert as int)[k]) && q[k] == ends2(c, g2.nvert as int)[k] by {
            assert(a[k] == (c[k] - 1) / g2.nvert as int); assert(b[k] == (c[k] - 1) % g2.nvert as int); assert(q[k] == b[k] + 1);
        }
        assert(p =~= ends1(c, g2.nvert as int)); assert forall|k: int| 0 <= k < q.len() implies #[trigger] q[k] == ends2(c, g2.nvert as int)[k] by { assert(p[k] == ends1(c, g2.nvert as int)[k]); } assert(q =~= ends2(c, g2.nvert as int));
        assert forall|k: int| 0 <= k < p.len() implies 1 <= #[trigger] p[k] <= g1.nvert && 1 <= q[k] <= g2.nvert by { assert(a[k] < g1.nvert && b[k] < g2.nvert); assert(q[k] == b[k] + 1); }
        assert forall|k: int, l: int| 0 <= k < l < p.len() implies #[trigger] p[k] != #[trigger] p[l] && q[k] != q[l] by {
            assert(one_to_one(a, b, s1.n() - 1, s2.n() - 1)); assert(a[k] != a[l]); assert(b[k] != b[l]); assert(q[k] == b[k] + 1 && q[l] == b[l] + 1);
        }
        assert forall|k: int, l: int| 0 <= k < p.len() && 0 <= l < p.len() && k != l && #[trigger] s2.adj(q[k] as int, q[l] as int) implies s1.adj(p[k] as int, p[l] as int) by {
            assert(q[k] == b[k] + 1 && q[l] == b[l] + 1 && p[k] == a[k] + 1 && p[l] == a[l] + 1);
            assert(s2.adj(b[k] + 1, b[l] + 1));
        }
    }
}
pub proof fn lemma_known(g: IsoGraph, x: Pair<Vec<u64>, Vec<u64>>)
    requires two(g.S1, g.S2), exists|s: Sh, c: Seq<u64>| #[trigger] known(s, g, c, x),
    ensures
        x.first@.len() == x.second@.len(), forall|k: int| 0 <= k < x.first@.len() ==> #[trigger] x.first@[k] < g.S1.nvert, forall|k: int| 0 <= k < x.second@.len() ==> #[trigger] x.second@[k] < g.S2.nvert,
        forall|p: Seq<u64>, q: Seq<u64>| above(p, x.first@) && above(q, x.second@) ==> #[trigger] mapped(p, q, g.S1, g.S2),
        forall|s: Sh, c: Seq<u64>, p: Seq<u64>, q: Seq<u64>| #![trigger known(s, g, c, x), mapped(p, q, g.S1, g.S2)] #![trigger known(s, g, c, x), found(g.S1, g.S2, c, p, q)] known(s, g, c, x) && above(p, x.first@) && above(q, x.second@) ==> found(g.S1, g.S2, c, p, q),
{
    let (s, c) = choose|s: Sh, c: Seq<u64>| #[trigger] known(s, g, c, x);
    lemma_found(s, g.S1, g.S2, c, x.first@, x.second@);
    assert forall|s: Sh, c: Seq<u64>, p: Seq<u64>, q: Seq<u64>| #![trigger known(s, g, c, x), mapped(p, q, g.S1, g.S2)] #![trigger known(s, g, c, x), found(g.S1, g.S2, c, p, q)] known(s, g, c, x) && above(p, x.first@) && above(q, x.second@)
            implies found(g.S1, g.S2, c, p, q) by { lemma_found(s, g.S1, g.S2, c, x.first@, x.second@); }
}
impl Wrapper {
    pub open spec fn of(self) -> IsoGraph { match self { Wrapper::Indices(g) => g, Wrapper::Dicts(g) => g } }
    pub open spec fn ri(self) -> bool { self is Indices }
}
// what the function given to the iterator does
impl Wrapper {
    pub fn call(&self, x: &Pair<Vec<u64>, Vec<u64>>) -> (r: Result<IsoAnswer, CmError>)
        requires two(self.of().S1, self.of().S2), exists|s: Sh, c: Seq<u64>| #[trigger] known(s, self.of(), c, *x),
        ensures r is Ok, forall|s: Sh, c: Seq<u64>| #[trigger] known(s, self.of(), c, *x) ==> answered(self.of().S1, self.of().S2, c, r->Ok_0, self.ri()),
    {
        match self { Wrapper::Indices(g) => g.all_correspondences_lambda_Indices(x), Wrapper::Dicts(g) => g.all_correspondences_lambda_Dicts(x) }
    }
}
pub open spec fn known(s: Sh, g: IsoGraph, c: Seq<u64>, x: Pair<Vec<u64>, Vec<u64>>) -> bool {
    s.ok() && iso_adj(s, g.S1, g.S2) && clq_list(s, c) && decoded(c, g.S2.nvert as int, x.first@, x.second@)
}
impl WrappedIterator {
    pub open spec fn ok(self) -> bool {
        let g = self._wrapper.of();
        iwf(self._it.en@, self._it.G@) && two(g.S1, g.S2) && self._it.len2 == g.S2.nvert && iso_adj(self._it.G@[0].sh(), g.S1, g.S2)
    }
}

@fn build_edges_for_iso(pg, s1, s2)
@requires
    s1.pwf(), s2.pwf(), s1.nvert * s2.nvert < 0xFFFF_FFF0,
@ensures
    r is Ok == (s1.loaded() && s2.loaded()),
    r is Ok ==> final(pg).pwf() && final(pg).loaded() && iso_adj(final(pg).g().sh(), *s1, *s2) && !final(pg).finished_all && final(pg).current_vertex == 0,
    r is Err ==> *final(pg) == *old(pg),
@at after /core_iso_edges/
    proof { assert(hasp(edges.first@, edges.second@, 0, 0)); assert(s1.nvert * s2.nvert > 0) by(nonlinear_arith) requires s1.nvert > 0, s2.nvert > 0; }

@fn IsoGraph::__init__(G1, G2)
@sig (G1: &pygraph, G2: &pygraph) -> IsoGraph
@requires
    G1.pwf(), G2.pwf(), G1.nvert * G2.nvert < 0xFFFF_FFF0,
@ensures
    r.ok(), r.S1 == *G1, r.S2 == *G2, !r.base.loaded(),

@fn IsoGraph::build_edges()
@sig (&mut self) -> Result<(), CmError>
@requires
    old(self).ok(),
@ensures
    final(self).ok(), final(self).S1 == old(self).S1, final(self).S2 == old(self).S2,
    r is Ok == (old(self).S1.loaded() && old(self).S2.loaded()), r is Ok ==> final(self).base.loaded(),

@fn IsoGraph::_format_correspondence(indices)
@sig (&self, indices: &Pair<Vec<u64>, Vec<u64>>) -> Result<Triple<Dict<StdSet>, Dict<StdSet>, Dict<u64>>, CmError>
@locals StdSet v1, StdSet v2, Dict<StdSet> G1, Dict<StdSet> G2, Dict<u64> mapping, Dict<u64> inv_map
@requires
    two(self.S1, self.S2), mapped(indices.first@, indices.second@, self.S1, self.S2),
@ensures
    r matches Ok(t) && dicts_of(t, indices.first@, indices.second@, self.S2.g().sh()),
@loop 1
@invariant
    mapped(indices.first@, indices.second@, self.S1, self.S2), it1_ <= n1_, n1_ == indices.first@.len(),
    forall|x: u64| #[trigger] mapping@.dom().contains(x) == oneof(indices.first@, it1_ as int, x), forall|k: int| 0 <= k < it1_ ==> mapping@[#[trigger] indices.first@[k]] == indices.second@[k],
    forall|x: u64| #[trigger] inv_map@.dom().contains(x) == oneof(indices.second@, it1_ as int, x), forall|k: int| 0 <= k < it1_ ==> inv_map@[#[trigger] indices.second@[k]] == indices.first@[k],
@loop_decreases
    n1_ - it1_
@loop 2
@invariant
    two(self.S1, self.S2), mapped(indices.first@, indices.second@, self.S1, self.S2), it2_ <= n2_, n2_ == indices.first@.len(),
    forall|x: u64| #[trigger] mapping@.dom().contains(x) == oneof(indices.first@, n2_ as int, x), forall|k: int| 0 <= k < n2_ ==> mapping@[#[trigger] indices.first@[k]] == indices.second@[k],
    forall|x: u64| #[trigger] inv_map@.dom().contains(x) == oneof(indices.second@, n2_ as int, x), forall|k: int| 0 <= k < n2_ ==> inv_map@[#[trigger] indices.second@[k]] == indices.first@[k],
    forall|x: u64| #[trigger] v2@.contains(x) == indices.second@.contains(x),
    forall|x: u64| #[trigger] G1@.dom().contains(x) == oneof(indices.first@, it2_ as int, x), forall|x: u64| #[trigger] G2@.dom().contains(x) == oneof(indices.second@, it2_ as int, x),
    forall|k: int| 0 <= k < it2_ ==> sub2(G2@[#[trigger] indices.second@[k]]@, indices.second@, self.S2.g().sh(), indices.second@[k]),
    forall|k: int| 0 <= k < it2_ ==> sub1(G1@[#[trigger] indices.first@[k]]@, G2@[indices.second@[k]]@, indices.first@, indices.second@),
@loop_decreases
    n2_ - it2_
@at loop 1 begin
    proof { lemma_oneof(indices.first@, it1_ as int); lemma_oneof(indices.second@, it1_ as int); }
@at loop 2 begin
    let ghost p = indices.first@; let ghost q = indices.second@; let ghost g1 = G1@; let ghost g2 = G2@;
    proof { lemma_oneof(p, it2_ as int); lemma_oneof(q, it2_ as int); lemma_contains(p); lemma_contains(q); }
@at loop 2 body_end
    proof {
        let i = it2_ as int;
        assert(sub2(G2@[q[i]]@, q, self.S2.g().sh(), q[i]));
        assert(sub1(G1@[p[i]]@, G2@[q[i]]@, p, q)) by { lemma_sub(p, q, inv_map@, G1@[p[i]]@, G2@[q[i]]@); }
    }
@at loop 2 after
    proof { lemma_contains(indices.first@); lemma_contains(indices.second@); }

@fn IsoGraph::get_correspondence(lower_bound, upper_bound, time_limit, use_heuristic, use_dfs, continue_search, return_indices)
@sig (&mut self, lower_bound: u64, upper_bound: u64, time_limit: Dbl, use_heuristic: bool, use_dfs: bool, continue_search: bool, return_indices: bool) -> Result<IsoAnswer, CmError>
@requires
    old(self).ok(),
@ensures
    final(self).ok(), final(self).S1 == old(self).S1, final(self).S2 == old(self).S2, final(self).base.loaded() == old(self).base.loaded(),
    !old(self).base.loaded() ==> r is Err,
    old(self).base.loaded() ==> final(self).base.g().sh() == old(self).base.g().sh(),
    old(self).base.loaded() ==> r is Ok == (lower_bound <= imin(final(self).base.best(), upper_bound as int)),
    r matches Ok(a) ==> exists|c: Seq<u64>| #[trigger] clq_list(old(self).base.g().sh(), c) && c.len() == imin(final(self).base.best(), upper_bound as int)
        && answered(old(self).S1, old(self).S2, c, a, return_indices),
    old(self).base.loaded() && use_dfs && time_limit@ <= 0real ==> is_best(old(self).base.g().sh(), imax(final(self).base.best(), lower_bound as int), upper_bound as int),
@at after /\.get_correspondence\(/
    proof {
        let s = old(self).base.g().sh();
        let c = choose|c: Seq<u64>| clq_list(s, c) && #[trigger] decoded(c, self.S2.nvert as int, indices.first@, indices.second@);
        lemma_found(s, self.S1, self.S2, c, indices.first@, indices.second@);
        assert(clq_list(s, c) && c.len() == imin(self.base.best(), upper_bound as int));
        assert forall|t: Triple<Dict<StdSet>, Dict<StdSet>, Dict<u64>>, p: Seq<u64>, q: Seq<u64>| above(p, indices.first@) && above(q, indices.second@) && #[trigger] dicts_of(t, p, q, self.S2.g().sh()) implies answered(self.S1, self.S2, c, IsoAnswer::Dicts(t), false) by {
            assert(found(self.S1, self.S2, c, p, q));
        }
    }

@fn IsoGraph::get_correspondence_default()
@sig (&mut self) -> Result<IsoAnswer, CmError>
@requires
    old(self).ok(),
@ensures
    final(self).ok(), final(self).S1 == old(self).S1, final(self).S2 == old(self).S2,
    !old(self).base.loaded() ==> r is Err,
    old(self).base.loaded() ==> final(self).base.g().sh() == old(self).base.g().sh() && is_best(old(self).base.g().sh(), imax(final(self).base.best(), 1), 0xFFFF),
    r matches Ok(a) ==> exists|c: Seq<u64>| #[trigger] clq_list(old(self).base.g().sh(), c) && c.len() == imin(final(self).base.best(), 0xFFFF) && answered(old(self).S1, old(self).S2, c, a, true),

@fn IsoGraph::all_correspondences_lambda_Indices(x)
@sig (&self, x: &Pair<Vec<u64>, Vec<u64>>) -> Result<IsoAnswer, CmError>
@requires
    two(self.S1, self.S2), exists|s: Sh, c: Seq<u64>| #[trigger] known(s, *self, c, *x),
@ensures
    r is Ok, forall|s: Sh, c: Seq<u64>| #[trigger] known(s, *self, c, *x) ==> answered(self.S1, self.S2, c, r->Ok_0, true),
@at begin
    proof { lemma_known(*self, *x); }

@fn IsoGraph::all_correspondences_lambda_Dicts(x)
@sig (&self, x: &Pair<Vec<u64>, Vec<u64>>) -> Result<IsoAnswer, CmError>
@requires
    two(self.S1, self.S2), exists|s: Sh, c: Seq<u64>| #[trigger] known(s, *self, c, *x),
@ensures
    r is Ok, forall|s: Sh, c: Seq<u64>| #[trigger] known(s, *self, c, *x) ==> answered(self.S1, self.S2, c, r->Ok_0, false),
@at begin
    proof { lemma_known(*self, *x); }

@fn IsoGraph::all_correspondences(size, return_indices)
@sig (&self, size: u64, return_indices: bool) -> Result<WrappedIterator, CmError>
@requires
    self.ok(),
@ensures
    r is Ok == self.base.loaded(),
    r matches Ok(w) ==> w.ok() && w._wrapper.ri() == return_indices && w._wrapper.of() == *self && w._it.en@[0].r() == size
        && (forall|q: Set<int>| #[trigger] left(w._it.en@[0], self.base.g().sh(), q) == (self.base.g().sh().clq(q) && q.len() == size && q.len() > 0)),

@fn WrappedIterator::__init__(it, wrapper)
@sig (it: CorrespondenceIterator, wrapper: Wrapper) -> WrappedIterator
@ensures
    r._it == it, r._wrapper == wrapper,

@fn WrappedIterator::__next__()
@sig (&mut self) -> Result<IsoAnswer, CmError>
@requires
    old(self).ok(),
@ensures
    r is Ok ==> final(self).ok(), final(self)._wrapper == old(self)._wrapper,
    // a correspondence whose clique was not reported before, or there is none
    r matches Ok(a) ==> exists|c: Seq<u64>| #[trigger] stepped(old(self)._it.en@[0], old(self)._it.G@[0], final(self)._it.en@[0], c)
        && answered(old(self)._wrapper.of().S1, old(self)._wrapper.of().S2, c, a, old(self)._wrapper.ri()),
    r is Err ==> none_left(old(self)._it.en@[0], old(self)._it.G@[0].sh()),
@at after /_it\.next_clique\(/
    proof {
        let s = old(self)._it.G@[0].sh(); let g = self._wrapper.of(); let l2 = old(self)._it.len2 as int;
        assert forall|c: Seq<u64>, x: Pair<Vec<u64>, Vec<u64>>| #[trigger] decoded(c, l2, x.first@, x.second@) && clq_list(s, c) implies known(s, g, c, x) by {}
    }

@fn WrappedIterator::next()
@sig (&mut self) -> Result<IsoAnswer, CmError>
@requires
    old(self).ok(),
@ensures
    r is Ok ==> final(self).ok(), final(self)._wrapper == old(self)._wrapper,
    r matches Ok(a) ==> exists|c: Seq<u64>| #[trigger] stepped(old(self)._it.en@[0], old(self)._it.G@[0], final(self)._it.en@[0], c)
        && answered(old(self)._wrapper.of().S1, old(self)._wrapper.of().S2, c, a, old(self)._wrapper.ri()),
    r is Err ==> none_left(old(self)._it.en@[0], old(self)._it.G@[0].sh()),
