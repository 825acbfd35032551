@lib
impl pygraph {
    // size of the clique in store
    pub open spec fn best(self) -> int { best_of(self.g()) }
}
pub open spec fn best_of(g: graph) -> int { g.store_of(g.CUR_MAX_CLIQUE_LOCATION as int).len() as int }
pub open spec fn imax(a: int, b: int) -> int { if a < b { b } else { a } }
pub open spec fn imin(a: int, b: int) -> int { if a < b { a } else { b } }
// With these bounds nothing rooted at a vertex before v beats m.
#[verifier::opaque]
pub open spec fn searched_to(g: graph, v: int, m: int, up: int) -> bool {
    m >= imin(up, g.max_degree as int)
        || forall|u: int, q: Set<int>| 1 <= u < v && u < g.n_vert && #[trigger] g.sh().rclq(u, q) ==> q.len() <= m
}
// m is the size of a largest clique, or the upper bound if that is less
#[verifier::opaque]
pub open spec fn is_best(s: Sh, m: int, up: int) -> bool {
    forall|q: Set<int>| #[trigger] s.clq(q) ==> imin(q.len() as int, up) <= m
}
proof fn lemma_searched(g: graph, m: int, up: int)
    requires g.gwf(), searched_to(g, g.n_vert as int, m, up), m >= 0,
    ensures is_best(g.sh(), m, up),
{
    reveal(searched_to); reveal(is_best);
    assert forall|q: Set<int>| #[trigger] g.sh().clq(q) implies imin(q.len() as int, up) <= m by {
        if q.len() > 0 {
            lemma_owner(g.sh(), q);
            let (u, k) = choose|u: int, k: Set<int>| 1 <= u < g.sh().n() && #[trigger] g.sh().rclq(u, k) && k.len() >= q.len();
            assert(g.vlay(u) && g.sh().v[u] == vsh(g.vertices@[u]));
            lemma_len_subset(k, Set::range(0, g.sh().v[u].N));
        }
    }
}
// only the graph counts, and nothing is rooted before vertex 1
proof fn lemma_searched_same(a: graph, b: graph, v: int, m: int, up: int)
    requires a.sh() == b.sh(), a.n_vert == b.n_vert, a.max_degree == b.max_degree,
    ensures searched_to(a, v, m, up) == searched_to(b, v, m, up), v <= 1 ==> searched_to(a, v, m, up),
{ reveal(searched_to); }
// bounds and clock of a search do not matter for what is stored
proof fn lemma_cfg(a: graph, b: graph)
    requires b == (graph { start_time: b.start_time, CUR_MAX_CLIQUE_SIZE: b.CUR_MAX_CLIQUE_SIZE, CLIQUE_LIMIT: b.CLIQUE_LIMIT, edge_bits: b.edge_bits, ..a }), a.gwf(),
        b.edge_bits@ == a.edge_bits@, b.edge_bits.gen == a.edge_bits.gen,
    ensures b.gwf(), b.sh() == a.sh(), best_of(a) == best_of(b), a.n_vert >= 2 ==> best_of(b) >= 1,
        a.n_vert >= 2 ==> 1 <= b.CUR_MAX_CLIQUE_LOCATION < b.n_vert,
{
    assert(b.sh() == a.sh());
    assert forall|w: int| 0 <= w < b.n_vert implies #[trigger] b.vlay(w) by { assert(a.vlay(w)); }
    assert forall|w: int| 0 <= w < b.n_vert implies #[trigger] b.vsto(w) by { assert(a.vsto(w)); }
    assert forall|w: int| 1 <= w < b.n_vert implies #[trigger] b.vroom(w) by { assert(a.vroom(w)); }
    assert forall|w: int| 0 <= w < b.n_vert implies #[trigger] b.vmcs(w) by { assert(a.vmcs(w)); }
    if a.n_vert >= 2 { assert(b.vsto(b.CUR_MAX_CLIQUE_LOCATION as int)); }
}
// what a search started at v1 with these bounds leaves behind
proof fn lemma_after(g1: graph, g2: graph, lo: int, up: int, v1: int, v2: int)
    requires g1.gwf(), g2.gwf(), searched_all(g1, g2), g1.n_vert >= 2, g1.CUR_MAX_CLIQUE_SIZE == imax(best_of(g1), lo), g1.CLIQUE_LIMIT == imin(up, g1.max_degree as int), lo >= 0,
    ensures g2.CUR_MAX_CLIQUE_SIZE == imax(best_of(g2), lo), best_of(g2) >= best_of(g1), best_of(g2) >= 1,
        g2.CUR_MAX_CLIQUE_SIZE >= g2.CLIQUE_LIMIT || done(g2, v2) ==> searched_to(g2, v2, imax(best_of(g2), lo), up),
        searched_to(g1, v1, imax(best_of(g1), lo), up) ==> g2.CUR_MAX_CLIQUE_SIZE >= g2.CLIQUE_LIMIT || done(g1, v1) && searched_to(g2, v1, imax(best_of(g2), lo), up),
        g2.CUR_MAX_CLIQUE_SIZE >= g2.CLIQUE_LIMIT || all_known(g2) ==> is_best(g2.sh(), imax(best_of(g2), lo), up),
        searched_to(g2, v2, imax(best_of(g2), lo), up) && v2 >= g2.n_vert ==> is_best(g2.sh(), imax(best_of(g2), lo), up),
{
    let l = g2.CUR_MAX_CLIQUE_LOCATION as int;
    assert(g2.vsto(l));
    reveal(searched_to);
    if all_known(g2) { reveal(is_best); }
    if g2.CUR_MAX_CLIQUE_SIZE == g1.CUR_MAX_CLIQUE_SIZE { assert(g2.store_of(l) == g1.store_of(l)); }
    if searched_to(g2, v2, imax(best_of(g2), lo), up) && v2 >= g2.n_vert { lemma_searched(g2, imax(best_of(g2), lo), up); }
    if g2.CUR_MAX_CLIQUE_SIZE >= g2.CLIQUE_LIMIT { lemma_searched(g2, imax(best_of(g2), lo), up); }
}

@fn pygraph::reset_search()
@requires
    old(self).pwf(),
@ensures
    r is Ok == old(self).loaded(),
    final(self).pwf(), final(self).G@.len() == old(self).G@.len(), final(self).nvert == old(self).nvert, final(self).nedges == old(self).nedges,
    old(self).loaded() ==> final(self).g().sh() == old(self).g().sh() && !final(self).finished_all && final(self).current_vertex == 0,
@at begin
    let ghost g0 = self.g();
@at end
    proof { lemma_cfg(g0, self.g()); }

@fn pygraph::get_max_clique(lower_bound, upper_bound, time_limit, use_heuristic, use_dfs, continue_search)
@locals Vec<u64> ans
@requires
    old(self).pwf(),
@ensures
    final(self).pwf(), final(self).G@.len() == old(self).G@.len(), final(self).nvert == old(self).nvert, final(self).nedges == old(self).nedges,
    !old(self).loaded() ==> r is Err,
    old(self).loaded() ==> final(self).g().sh() == old(self).g().sh() && final(self).g().max_degree == old(self).g().max_degree,
    // what is returned is a clique within the bounds
    r matches Ok(c) ==> clq_list(old(self).g().sh(), c@) && lower_bound <= c@.len() <= upper_bound,
    old(self).loaded() ==> r is Ok == (lower_bound <= imin(final(self).best(), upper_bound as int)),
    r matches Ok(c) ==> c@.len() == imin(final(self).best(), upper_bound as int),
    // an uninterrupted exact search finds a largest clique, or one of the size of the upper bound, unless that is no more than the lower bound
    old(self).loaded() && use_dfs && time_limit@ <= 0real ==> final(self).finished_all
        && is_best(old(self).g().sh(), imax(final(self).best(), lower_bound as int), upper_bound as int),
    // a search that was interrupted loses nothing when it is continued with the same bounds ...
    old(self).loaded() && (continue_search ==> searched_to(old(self).g(), old(self).current_vertex as int, imax(old(self).best(), lower_bound as int), upper_bound as int))
        ==> searched_to(final(self).g(), final(self).current_vertex as int, imax(final(self).best(), lower_bound as int), upper_bound as int)
        // ... and is reported as done only when it found the best
        && (final(self).finished_all ==> is_best(old(self).g().sh(), imax(final(self).best(), lower_bound as int), upper_bound as int)),
    // a search that was not interrupted is done
    old(self).loaded() && use_dfs ==> final(self).finished_all || time_limit@ > 0real && final(self).g().start_time.last@ > time_limit@,
    old(self).loaded() ==> final(self).best() >= old(self).best() && final(self).best() >= 1
        && final(self).finished_all == (final(self).current_vertex > final(self).nvert),
@at after /check_loaded/
    let ghost g0 = self.g();
    proof { lemma_cfg(g0, g0); }
@at before /get_max_clique_0/ 1
    proof { lemma_cfg(g0, self.g()); }
@at before /find_max_cliques/
    let ghost g1 = self.g();
    let ghost v1 = self.current_vertex as int;
    proof { lemma_cfg(g0, g1); }
@at after /find_max_cliques/
    let ghost g2 = self.g();
@at before /^\s*if .*\bans\b/ 1
    proof {
        lemma_cfg(g2, self.g());
        assert(self.g().gwf() && self.g().sh() == g0.sh());
        assert(self.pwf());
        lemma_after(g1, g2, lower_bound as int, upper_bound as int, v1, self.current_vertex as int);
        let m = imax(best_of(g2), lower_bound as int); let v2 = self.current_vertex as int; let up = upper_bound as int;
        lemma_searched_same(self.g(), g2, v2, m, up);
        let m0 = imax(best_of(g0), lower_bound as int);
        lemma_searched_same(old(self).g(), g1, v1, m0, up);
        if searched_to(g1, v1, m0, up) { assert(searched_to(g2, v2, m, up)); }
    }

@fn pygraph::get_correspondence(len1, len2, lower_bound, upper_bound, time_limit, use_heuristic, use_dfs, continue_search)
@requires
    old(self).pwf(),
@ensures
    final(self).pwf(), final(self).G@.len() == old(self).G@.len(), final(self).nvert == old(self).nvert, final(self).nedges == old(self).nedges,
    !old(self).loaded() ==> r is Err,
    old(self).loaded() ==> final(self).g().sh() == old(self).g().sh(),
    old(self).loaded() ==> r is Ok == (len2 > 0 && lower_bound <= imin(final(self).best(), upper_bound as int)),
    r matches Ok(p) ==> p.first@.len() == imin(final(self).best(), upper_bound as int)
        && exists|c: Seq<u64>| clq_list(old(self).g().sh(), c) && #[trigger] decoded(c, len2 as int, p.first@, p.second@),
    old(self).loaded() && use_dfs && time_limit@ <= 0real ==> final(self).finished_all
        && is_best(old(self).g().sh(), imax(final(self).best(), lower_bound as int), upper_bound as int),
