@lib
// weight of the clique in store
pub open spec fn best_of(g: nwgraph) -> real { wof(g.sh(), g.CUR_MAX_CLIQUE_LOCATION as int, g.store_of(g.CUR_MAX_CLIQUE_LOCATION as int)) }
pub open spec fn rmax(a: real, b: real) -> real { if a < b { b } else { a } }
pub open spec fn rmin(a: real, b: real) -> real { if a < b { a } else { b } }
impl pynwgraph { pub open spec fn best(self) -> real { best_of(self.g()) } }
// with positive weights m is the weight of a heaviest clique, or reaches the upper bound
#[verifier::opaque]
pub open spec fn is_best(s: Sh, m: real, up: real) -> bool {
    wpos(s) ==> m >= up || forall|q: Set<int>| #[trigger] s.clq(q) ==> setw(s, q) <= m
}
// no clique is heavier than the largest degree
proof fn lemma_maxdeg(g: nwgraph, u: int, k: Set<int>)
    requires g.gwf(), wpos(g.sh()), 1 <= u < g.n_vert, g.sh().rclq(u, k),
    ensures wof(g.sh(), u, k) <= g.max_degree@,
{
    assert(g.vdeg(u) && g.sh().v[u] == vsh(g.vertices@[u]));
    let n = g.sh().v[u].N;
    lemma_w_sub(g.sh(), u, k, Set::range(0, n), n);
}
proof fn lemma_wpos_best(g: nwgraph)
    requires g.gwf(), g.n_vert >= 2,
    ensures wpos(g.sh()) ==> best_of(g) > 0real,
{
    let u = g.CUR_MAX_CLIQUE_LOCATION as int; let s = g.sh(); let q = g.store_of(u);
    if wpos(s) {
        assert(g.vsto(u) && g.vlay(u) && s.v[u] == vsh(g.vertices@[u]));
        let k = q.choose(); let n = s.v[u].N;
        assert(q.contains(k));
        lemma_wt_pos(s, u, k);
        lemma_w_remove(s, u, q, k, n);
        lemma_w_sub(s, u, q.remove(k), q, n);
    }
}
// bounds of a search do not matter for what is stored
proof fn lemma_cfg(a: nwgraph, b: nwgraph)
    requires b == (nwgraph { CUR_MAX_CLIQUE_SIZE: b.CUR_MAX_CLIQUE_SIZE, CLIQUE_LIMIT: b.CLIQUE_LIMIT, edge_bits: b.edge_bits, ..a }), a.gwf(),
        b.edge_bits@ == a.edge_bits@, b.edge_bits.gen == a.edge_bits.gen,
    ensures b.gwf(), b.sh() == a.sh(), best_of(a) == best_of(b),
        a.n_vert >= 2 ==> 1 <= b.CUR_MAX_CLIQUE_LOCATION < b.n_vert,
{
    assert(b.sh() == a.sh());
    assert forall|w: int| 0 <= w < b.n_vert implies #[trigger] b.vlay(w) by { assert(a.vlay(w)); }
    assert forall|w: int| 0 <= w < b.n_vert implies #[trigger] b.vsto(w) by { assert(a.vsto(w)); }
    assert forall|w: int| 0 <= w < b.n_vert implies #[trigger] b.vdeg(w) by { assert(a.vdeg(w)); }
    assert forall|w: int| 1 <= w < b.n_vert implies #[trigger] b.vmcs(w) by { assert(a.vmcs(w)); }
}
// what a search with these bounds leaves behind
proof fn lemma_after(g1: nwgraph, g2: nwgraph, lo: real, up: real)
    requires g1.gwf(), g2.gwf(), searched_all(g1, g2), g1.n_vert >= 2, g1.CUR_MAX_CLIQUE_SIZE@ == rmax(best_of(g1), lo), g1.CLIQUE_LIMIT@ == rmin(up, g1.max_degree@),
    ensures g2.CUR_MAX_CLIQUE_SIZE@ == rmax(best_of(g2), lo), best_of(g2) >= best_of(g1),
        g2.CUR_MAX_CLIQUE_SIZE@ >= g2.CLIQUE_LIMIT@ || done(g2, g2.n_vert as int) ==> is_best(g2.sh(), rmax(best_of(g2), lo), up),
{
    let l = g2.CUR_MAX_CLIQUE_LOCATION as int; let s = g2.sh(); let m = g2.CUR_MAX_CLIQUE_SIZE@;
    if g2.CUR_MAX_CLIQUE_SIZE@ == g1.CUR_MAX_CLIQUE_SIZE@ { assert(g2.store_of(l) == g1.store_of(l)); }
    lemma_wpos_best(g2);
    if g2.CUR_MAX_CLIQUE_SIZE@ >= g2.CLIQUE_LIMIT@ || done(g2, g2.n_vert as int) {
        reveal(is_best);
        if wpos(s) && m < up {
            assert forall|q: Set<int>| #[trigger] s.clq(q) implies setw(s, q) <= m by {
                if q.len() > 0 {
                    lemma_wowner(s, q);
                    let (u, k) = choose|u: int, k: Set<int>| #[trigger] wroot(s, u, k, q);
                    lemma_maxdeg(g2, u, k);
                } else {
                    assert(q =~= Set::empty());
                    lemma_setw_gap(s, q, 0, s.n());
                }
            }
        }
    }
}

@fn pynwgraph::reset_search()
@requires
    old(self).pwf(),
@ensures
    r is Ok == old(self).loaded(),
    final(self).pwf(), final(self).G@.len() == old(self).G@.len(), final(self).nvert == old(self).nvert, final(self).nedges == old(self).nedges,
    old(self).loaded() ==> final(self).g().sh() == old(self).g().sh() && !final(self).finished_all && final(self).current_vertex == 0,
@at begin
    let ghost g0 = self.g();
@at end
    proof { lemma_cfg(g0, self.g()); }

@fn pynwgraph::get_max_clique(lower_bound, upper_bound, use_heuristic, use_dfs)
@locals Vec<u64> ans
@requires
    old(self).pwf(),
@ensures
    final(self).pwf(), final(self).G@.len() == old(self).G@.len(), final(self).nvert == old(self).nvert, final(self).nedges == old(self).nedges,
    !old(self).loaded() ==> r is Err,
    old(self).loaded() ==> final(self).g().sh() == old(self).g().sh() && final(self).g().max_degree == old(self).g().max_degree,
    // what is returned is a clique that reaches the lower bound
    r matches Ok(c) ==> clq_list(old(self).g().sh(), c@) && c@.len() >= 1 && lsum(old(self).g().sh(), c@, c@.len() as int) == final(self).best(),
    r matches Ok(c) ==> setw(old(self).g().sh(), vset(c@)) == final(self).best(),
    old(self).loaded() ==> r is Ok == (lower_bound@ <= final(self).best()),
    // an exact search finds a heaviest clique, or one that reaches the upper bound, unless that is no more than the lower bound
    old(self).loaded() && use_dfs ==> final(self).finished_all
        && is_best(old(self).g().sh(), rmax(final(self).best(), lower_bound@), upper_bound@),
    old(self).loaded() ==> final(self).best() >= old(self).best() && final(self).finished_all == use_dfs,
@at after /check_loaded/
    let ghost g0 = self.g();
    proof { lemma_cfg(g0, g0); }
@at before /get_max_clique_0/ 1
    proof { lemma_cfg(g0, self.g()); }
@at before /find_max_cliques/
    let ghost g1 = self.g();
    proof { lemma_cfg(g0, g1); }
@at after /find_max_cliques/
    let ghost g2 = self.g();
@at before /if dbl_gt\(lower_bound, self\.G\[0usize\]\.get_clique/
    proof {
        lemma_cfg(g2, self.g());
        assert(self.pwf());
        lemma_after(g1, g2, lower_bound@, upper_bound@);
        lemma_lsetw(g0.sh(), ans@, ans@.len() as int);
    }

@fn pynwgraph::get_correspondence(len1, len2, lower_bound, upper_bound, use_heuristic, use_dfs)
@requires
    old(self).pwf(),
@ensures
    final(self).pwf(), final(self).G@.len() == old(self).G@.len(), final(self).nvert == old(self).nvert, final(self).nedges == old(self).nedges,
    !old(self).loaded() ==> r is Err,
    old(self).loaded() ==> final(self).g().sh() == old(self).g().sh(),
    old(self).loaded() ==> r is Ok == (len2 > 0 && lower_bound@ <= final(self).best()),
    r matches Ok(p) ==> exists|c: Seq<u64>| clq_list(old(self).g().sh(), c) && #[trigger] decoded(c, len2 as int, p.first@, p.second@) && setw(old(self).g().sh(), vset(c)) == final(self).best(),
    old(self).loaded() && use_dfs ==> final(self).finished_all
        && is_best(old(self).g().sh(), rmax(final(self).best(), lower_bound@), upper_bound@),

@fn pynwgraph::get_clique_weight(clique)
@requires
    self.pwf(),
@ensures
    r is Ok == self.loaded(),
    r matches Ok(w) ==> w@ == csum(self.g().sh(), clique@, clique@.len() as int) && (clq_list(self.g().sh(), clique@) ==> w@ == setw(self.g().sh(), vset(clique@))),
@at end
    proof { if clq_list(self.g().sh(), clique@) { lemma_lsetw(self.g().sh(), clique@, clique@.len() as int); } }
