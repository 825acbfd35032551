@lib
proof fn lemma_all_trans(a: nwgraph, b: nwgraph, c: nwgraph)
    requires searched_all(a, b), searched_all(b, c),
    ensures searched_all(a, c), b.CUR_MAX_CLIQUE_SIZE@ <= c.CUR_MAX_CLIQUE_SIZE@,
{
    let l = b.CUR_MAX_CLIQUE_LOCATION as int;
    if c.CUR_MAX_CLIQUE_SIZE@ == b.CUR_MAX_CLIQUE_SIZE@ {
        if b.CUR_MAX_CLIQUE_SIZE@ > a.CUR_MAX_CLIQUE_SIZE@ { assert(c.store_of(l) == b.store_of(l)); }
        else { assert forall|w: int| 0 <= w < a.n_vert implies #[trigger] c.store_of(w) == a.store_of(w) by { assert(b.store_of(w) == a.store_of(w)); } }
    }
}
// the weight of the vertices among the first k entries of c
pub open spec fn csum(s: Sh, c: Seq<u64>, k: int) -> real
    decreases k,
{ if k <= 0 { 0real } else { csum(s, c, k - 1) + (if c[k - 1] < s.n() { s.v[c[k - 1] as int].w } else { 0real }) } }
pub proof fn lemma_csum(s: Sh, c: Seq<u64>, k: int)
    requires 0 <= k <= c.len(), forall|i: int| 0 <= i < k ==> (#[trigger] c[i]) < s.n(),
    ensures csum(s, c, k) == lsum(s, c, k),
    decreases k,
{ if k > 0 { lemma_csum(s, c, k - 1); assert(c[k - 1] < s.n()); } }

@fn nwgraph::find_max_cliques(start_vert, use_heur, use_dfs)
@requires
    old(self).gwf(), old(self).n_vert >= 2, old(self).search_cur == old(self).search_start,
@ensures
    final(self).gwf(), searched_all(*old(self), *final(self)),
    !use_dfs ==> *final(start_vert) == *old(start_vert),
    use_dfs ==> *final(start_vert) == final(self).n_vert
        && (final(self).CUR_MAX_CLIQUE_SIZE@ >= final(self).CLIQUE_LIMIT@ || done(*final(self), final(self).n_vert as int)),
@at begin
    proof { lemma_all_start(*self); }
@at before /if use_dfs/
    let ghost gh = *self;
@at end
    proof { if use_dfs { lemma_all_trans(*old(self), gh, *self); } }

@fn nwgraph::get_clique_weight(clique)
@requires
    self.n_vert == self.vertices@.len(),
@ensures
    r@ == csum(self.sh(), clique@, clique@.len() as int),
    clq_list(self.sh(), clique@) ==> r@ == lsum(self.sh(), clique@, clique@.len() as int),
@loop 1
@invariant
    it_v <= clique@.len(), self.n_vert == self.vertices@.len(), wt@ == csum(self.sh(), clique@, it_v as int),
@loop_decreases
    clique@.len() - it_v
@at end
    proof { if clq_list(self.sh(), clique@) { lemma_csum(self.sh(), clique@, clique@.len() as int); } }
