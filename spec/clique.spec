@lib
// the best clique known: if it was found since g0, it is stored at its location
pub proof fn lemma_limit(g: graph)
    requires g.gwf(), g.CUR_MAX_CLIQUE_SIZE >= g.max_degree,
    ensures all_known(g),
{
    assert forall|q: Set<int>| #[trigger] g.sh().clq(q) implies q.len() <= g.CUR_MAX_CLIQUE_SIZE by {
        if q.len() > 0 {
            lemma_owner(g.sh(), q);
            let (u, k) = choose|u: int, k: Set<int>| 1 <= u < g.sh().n() && #[trigger] g.sh().rclq(u, k) && k.len() >= q.len();
            assert(g.vlay(u) && g.sh().v[u] == vsh(g.vertices@[u]));
            lemma_len_subset(k, Set::range(0, g.sh().v[u].N));
        }
    }
}
proof fn lemma_all_trans(a: graph, b: graph, c: graph)
    requires searched_all(a, b), searched_all(b, c),
    ensures searched_all(a, c), b.CUR_MAX_CLIQUE_SIZE <= c.CUR_MAX_CLIQUE_SIZE, forall|v: int| done(a, v) ==> #[trigger] done(b, v),
{
    let l = b.CUR_MAX_CLIQUE_LOCATION as int;
    if c.CUR_MAX_CLIQUE_SIZE == b.CUR_MAX_CLIQUE_SIZE {
        if b.CUR_MAX_CLIQUE_SIZE > a.CUR_MAX_CLIQUE_SIZE { assert(c.store_of(l) == b.store_of(l)); }
        else { assert forall|w: int| 0 <= w < a.n_vert implies #[trigger] c.store_of(w) == a.store_of(w) by { assert(b.store_of(w) == a.store_of(w)); } }
    }
}

// readings of the clock change nothing
proof fn lemma_ticks(g0: graph, a: graph)
    requires a.gwf(), searched_all(g0, a),
    ensures forall|b: graph| #![trigger b.gwf()] #![trigger searched_all(g0, b)] b == (graph { start_time: b.start_time, ..a }) ==> b.gwf() && searched_all(g0, b) && b.sh() == a.sh(),
{
    assert forall|b: graph| #![trigger b.gwf()] #![trigger searched_all(g0, b)] b == (graph { start_time: b.start_time, ..a }) implies b.gwf() && searched_all(g0, b) && b.sh() == a.sh() by { lemma_tick(g0, a, b); }
}

@fn graph::find_max_cliques(start_vert, use_heur, use_dfs, time_limit)
@requires
    old(self).gwf(), old(self).n_vert >= 2, old(self).search_cur == old(self).search_start, old(self).CUR_MAX_CLIQUE_SIZE >= 1,
@ensures
    final(self).gwf(), searched_all(*old(self), *final(self)),
    !use_dfs ==> *final(start_vert) == *old(start_vert),
    use_dfs && time_limit@ <= 0real ==> *final(start_vert) == final(self).n_vert
        && (final(self).CUR_MAX_CLIQUE_SIZE >= final(self).CLIQUE_LIMIT || done(*final(self), final(self).n_vert as int)),
    // a search that goes on where one stopped
    use_dfs && time_limit@ > 0real ==> *final(start_vert) >= *old(start_vert) && (final(self).CUR_MAX_CLIQUE_SIZE >= final(self).CLIQUE_LIMIT
        || !done(*old(self), *old(start_vert) as int) || done(*final(self), *final(start_vert) as int))
        // stopped early only when the time was up
        && (*final(start_vert) < final(self).n_vert ==> final(self).start_time.last@ > time_limit@),
@at begin
    proof { lemma_all_start(*self); lemma_ticks(*self, *self); }
    let ghost mut gh = *self; let ghost mut g1 = *self;
@at before /if use_heur/
    proof { g1 = *self; assert(self.gwf()); }
@at after /if use_heur/
    proof { if use_heur { lemma_all_trans(*old(self), g1, *self); } gh = *self; }
@at before /let _ = { self.start_time/ 2
    proof { lemma_ticks(*old(self), *self); }
@at before /\(\*start_vert\) = / all
    proof { assert(self.gwf()); gh = *self; }
@at before /return self.elapsed_time/
    proof {
        if use_dfs {
            lemma_all_trans(*old(self), gh, *self);
        }
        assert(self.gwf());
        lemma_ticks(*old(self), *self);
    }
