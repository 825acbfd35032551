@lib
// a set of vertices that is still to be visited
pub open spec fn left(e: NWCliqueEnumerator, s: Sh, q: Set<int>) -> bool {
    s.clq(q) && exists|u: int| #[trigger] first(s, u, q) && e.todo(s, u, kset(s, u, q))
}
// at first all sets of two or more vertices that weigh enough
pub open spec fn heavy(s: Sh, r: real, q: Set<int>) -> bool { s.clq(q) && setw(s, q) >= r && q.len() >= 2 }
proof fn lemma_heavy(s: Sh, r: real, u: int, q: Set<int>)
    requires s.ok(), s.clq(q), q.len() > 0, first(s, u, q),
    ensures wanted(s, r, u, kset(s, u, q)) == heavy(s, r, q), 1 <= u < s.n(),
{
    lemma_first_of(s, q);
    assert(q.contains(u));
    lemma_setw(s, u, q);
}
proof fn lemma_left_new(e: NWCliqueEnumerator, s: Sh)
    requires s.ok(), forall|u: int, q: Set<int>| e.todo(s, u, q) == #[trigger] wanted(s, e.r(), u, q),
    ensures forall|q: Set<int>| #[trigger] left(e, s, q) == heavy(s, e.r(), q),
{
    assert forall|q: Set<int>| #[trigger] left(e, s, q) == heavy(s, e.r(), q) by {
        if s.clq(q) && q.len() > 0 {
            lemma_first_of(s, q);
            let u = choose|u: int| #[trigger] first(s, u, q);
            lemma_heavy(s, e.r(), u, q);
            assert(e.todo(s, u, kset(s, u, q)) == wanted(s, e.r(), u, kset(s, u, q)));
            if left(e, s, q) {
                let v = choose|v: int| #[trigger] first(s, v, q) && e.todo(s, v, kset(s, v, q));
                assert(u == v);
            }
        } else if left(e, s, q) { let v = choose|v: int| #[trigger] first(s, v, q) && e.todo(s, v, kset(s, v, q)); assert(q.contains(v)); }
    }
}
// what a call does to the cliques still to come: c is one of them and no longer, and only cliques that contain c are passed over
pub open spec fn stepped(en0: NWCliqueEnumerator, g0: nwgraph, en: NWCliqueEnumerator, c: Seq<u64>) -> bool {
    let s = g0.sh();
    &&& clq_list(s, c) && heavy(s, en0.r(), vset(c)) && left(en0, s, vset(c)) && !left(en, s, vset(c))
    &&& forall|q: Set<int>| #[trigger] left(en, s, q) ==> left(en0, s, q)
    &&& wpos(s) ==> forall|q: Set<int>| #[trigger] left(en0, s, q) && !left(en, s, q) ==> vset(c).subset_of(q)
}
proof fn lemma_left_step(e0: NWCliqueEnumerator, e: NWCliqueEnumerator, g: nwgraph, v: int, k: Set<int>, c: Seq<u64>)
    requires g.sh().ok(), e0.todo(g.sh(), v, k), !e.todo(g.sh(), v, k), clq_list(g.sh(), c), lists_k(g.sh(), v, k, c), c.len() == k.len(), e.r() == e0.r(),
        forall|u: int, q: Set<int>| #[trigger] e.todo(g.sh(), u, q) ==> e0.todo(g.sh(), u, q),
        wpos(g.sh()) ==> forall|u: int, q: Set<int>| #[trigger] e0.todo(g.sh(), u, q) && !e.todo(g.sh(), u, q) ==> u == v && k.subset_of(q),
    ensures stepped(e0, g, e, c),
{
    let s = g.sh();
    lemma_listed(s, v, k, c);
    let p = vset(c);
    assert(k.contains(s.v[v].spos));
    lemma_heavy(s, e0.r(), v, p);
    assert(first(s, v, p) && e0.todo(s, v, kset(s, v, p)));
    if left(e, s, p) {
        let u = choose|u: int| #[trigger] first(s, u, p) && e.todo(s, u, kset(s, u, p));
        lemma_first_of(s, p);
        assert(u == v);
    }
    assert forall|q: Set<int>| #[trigger] left(e, s, q) implies left(e0, s, q) by {
        let u = choose|u: int| #[trigger] first(s, u, q) && e.todo(s, u, kset(s, u, q));
        assert(first(s, u, q) && e0.todo(s, u, kset(s, u, q)));
    }
    if wpos(s) {
        assert forall|q: Set<int>| #[trigger] left(e0, s, q) && !left(e, s, q) implies p.subset_of(q) by {
            let u = choose|u: int| #[trigger] first(s, u, q) && e0.todo(s, u, kset(s, u, q));
            assert(!e.todo(s, u, kset(s, u, q)));
            assert(u == v && k.subset_of(kset(s, u, q)));
            lemma_kset_sub(s, u, p, q);
        }
    }
}
proof fn lemma_kset_sub(s: Sh, u: int, p: Set<int>, q: Set<int>)
    requires s.ok(), s.clq(p), first(s, u, p), kset(s, u, p).subset_of(kset(s, u, q)),
    ensures p.subset_of(q),
{
    assert(s.vok(u));
    assert forall|w: int| #[trigger] p.contains(w) implies q.contains(w) by {
        assert(p.contains(u));
        assert(s.adj(u, w));
        let k = choose|k: int| 0 <= k < s.v[u].N && #[trigger] s.nb(u, k) == w;
        assert(kset(s, u, p).contains(k));
        assert(kset(s, u, q).contains(k));
    }
}
pub open spec fn iwf(en: Seq<NWCliqueEnumerator>, g: Seq<nwgraph>) -> bool {
    en.len() == 1 && g.len() > 0 && g[0].gwf() && en[0].ewf(g[0].sh())
}
pub open spec fn none_left(en: NWCliqueEnumerator, s: Sh) -> bool { forall|q: Set<int>| !#[trigger] left(en, s, q) }
// the graph is the same but for what is stored per vertex
pub open spec fn same_graph(g0: nwgraph, g: nwgraph) -> bool { g.gwf() && g.sh() == g0.sh() && g == (nwgraph { edge_bits: g.edge_bits, ..g0 }) }
proof fn lemma_none(e: NWCliqueEnumerator, s: Sh)
    requires forall|u: int, q: Set<int>| !#[trigger] e.todo(s, u, q),
    ensures none_left(e, s),
{}
// reading a clique leaves the graph as it is
proof fn lemma_read(a: nwgraph, b: nwgraph)
    requires a.gwf(), b == (nwgraph { edge_bits: b.edge_bits, ..a }), b.edge_bits@ == a.edge_bits@, b.edge_bits.gen == a.edge_bits.gen,
    ensures b.gwf(), b.sh() == a.sh(),
{
    assert(b.sh() == a.sh());
    assert forall|w: int| 0 <= w < b.n_vert implies #[trigger] b.vlay(w) by { assert(a.vlay(w)); }
    assert forall|w: int| 0 <= w < b.n_vert implies #[trigger] b.vsto(w) by { assert(a.vsto(w)); }
    assert forall|w: int| 0 <= w < b.n_vert implies #[trigger] b.vdeg(w) by { assert(a.vdeg(w)); }
    assert forall|w: int| 1 <= w < b.n_vert implies #[trigger] b.vmcs(w) by { assert(a.vmcs(w)); }
}

@fn NWCliqueIterator::new_pynwgraph_pyobj_d(p, rf, clique_size)
@requires
    p.pwf(),
@ensures
    r is Ok == p.loaded(),
    r matches Ok(t) ==> iwf(t.en@, t.G@) && t.G@ == p.G@ && t.pg == *p && t.en@[0].r() == clique_size@
        && (forall|q: Set<int>| #[trigger] left(t.en@[0], p.g().sh(), q) == heavy(p.g().sh(), clique_size@, q)),
@at end
    proof { lemma_left_new(this_.en@[0], p.g().sh()); }

@fn NWCliqueIterator::next_clique()
@locals u64 v
@opt loops_any
@requires
    iwf(old(self).en@, old(self).G@),
@ensures
    final(self).en@.len() == 1, final(self).G@.len() == old(self).G@.len(), same_graph(old(self).G@[0], final(self).G@[0]), final(self).en@[0].ewf(old(self).G@[0].sh()),
    final(self).en@[0].REQUIRED_WEIGHT == old(self).en@[0].REQUIRED_WEIGHT,
    // a clique that weighs enough and was not visited before, or there is none
    r matches Ok(c) ==> stepped(old(self).en@[0], old(self).G@[0], final(self).en@[0], c@),
    r is Err ==> (wpos(old(self).G@[0].sh()) ==> none_left(old(self).en@[0], old(self).G@[0].sh())) && none_left(final(self).en@[0], old(self).G@[0].sh()) && final(self).G@[0] == old(self).G@[0] && final(self).pg == old(self).pg,
@loop 1
@invariant_except_break
    *self == *old(self), iwf(self.en@, self.G@),
@loop_ensures
    self.en@.len() == 1, self.G@.len() == old(self).G@.len(), self.G@.len() > 0, self.G@[0] == old(self).G@[0], self.G@[0].gwf(), self.en@[0].ewf(self.G@[0].sh()),
    self.en@[0].REQUIRED_WEIGHT == old(self).en@[0].REQUIRED_WEIGHT, self.pg == old(self).pg,
    wpos(self.G@[0].sh()) ==> none_left(old(self).en@[0], self.G@[0].sh()), none_left(self.en@[0], self.G@[0].sh()),
@loop_decreases
    0int
@at after /process_graph/
    let ghost g1 = self.G@[0]; let ghost e0 = old(self).en@[0];
    proof {
        assert(g1.gwf()); assert(g1.n_vert == g1.vertices@.len());
        if v >= g1.n_vert {
            if wpos(g1.sh()) { lemma_none(e0, g1.sh()); }
            lemma_none(self.en@[0], g1.sh());
        }
    }
@at before /return Ok/
    proof {
        assert(g1.vsto(v as int));
        assert forall|c: Seq<u64>| #![trigger clq_list(g1.sh(), c)] clq_list(g1.sh(), c) && lists_k(g1.sh(), v as int, g1.store_of(v as int), c) && c.len() == g1.store_of(v as int).len() implies
            stepped(e0, old(self).G@[0], self.en@[0], c) by {
            lemma_left_step(e0, self.en@[0], g1, v as int, g1.store_of(v as int), c);
        }
        assert forall|b: nwgraph| #![trigger b.gwf()] b == (nwgraph { edge_bits: b.edge_bits, ..g1 }) && b.edge_bits@ == g1.edge_bits@ && b.edge_bits.gen == g1.edge_bits.gen implies b.gwf() && b.sh() == g1.sh() by { lemma_read(g1, b); }
    }

@fn NWCorrespondenceIterator::new_pynwgraph_pyobj_u_u_d(p, rf, len1, len2, clique_size)
@requires
    p.pwf(),
@ensures
    r is Ok == p.loaded(),
    r matches Ok(t) ==> iwf(t.en@, t.G@) && t.G@ == p.G@ && t.pg == *p && t.en@[0].r() == clique_size@ && t.len1 == len1 && t.len2 == len2
        && (forall|q: Set<int>| #[trigger] left(t.en@[0], p.g().sh(), q) == heavy(p.g().sh(), clique_size@, q)),
@at end
    proof { lemma_left_new(this_.en@[0], p.g().sh()); }

@fn NWCorrespondenceIterator::next_clique()
@locals u64 v
@opt loops_any
@requires
    iwf(old(self).en@, old(self).G@),
@ensures
    final(self).en@.len() == 1, final(self).G@.len() == old(self).G@.len(), same_graph(old(self).G@[0], final(self).G@[0]), final(self).en@[0].ewf(old(self).G@[0].sh()),
    final(self).en@[0].REQUIRED_WEIGHT == old(self).en@[0].REQUIRED_WEIGHT, final(self).len1 == old(self).len1, final(self).len2 == old(self).len2,
    // the pairs of a clique that weighs enough and was not visited before, or there is none
    r matches Ok(p) ==> exists|c: Seq<u64>| #[trigger] stepped(old(self).en@[0], old(self).G@[0], final(self).en@[0], c)
        && decoded(c, old(self).len2 as int, p.first@, p.second@),
    r is Err && old(self).len2 > 0 ==> (wpos(old(self).G@[0].sh()) ==> none_left(old(self).en@[0], old(self).G@[0].sh())) && none_left(final(self).en@[0], old(self).G@[0].sh()) && final(self).G@[0] == old(self).G@[0] && final(self).pg == old(self).pg,
@loop 1
@invariant_except_break
    *self == *old(self), iwf(self.en@, self.G@),
@loop_ensures
    self.en@.len() == 1, self.G@.len() == old(self).G@.len(), self.G@.len() > 0, self.G@[0] == old(self).G@[0], self.G@[0].gwf(), self.en@[0].ewf(self.G@[0].sh()),
    self.en@[0].REQUIRED_WEIGHT == old(self).en@[0].REQUIRED_WEIGHT, self.pg == old(self).pg, self.len1 == old(self).len1, self.len2 == old(self).len2,
    wpos(self.G@[0].sh()) ==> none_left(old(self).en@[0], self.G@[0].sh()), none_left(self.en@[0], self.G@[0].sh()),
@loop_decreases
    0int
@at after /process_graph/
    let ghost g1 = self.G@[0]; let ghost e0 = old(self).en@[0];
    proof {
        assert(g1.gwf()); assert(g1.n_vert == g1.vertices@.len());
        if v >= g1.n_vert {
            if wpos(g1.sh()) { lemma_none(e0, g1.sh()); }
            lemma_none(self.en@[0], g1.sh());
        }
    }
@at before /return Ok/
    proof {
        assert(g1.vsto(v as int));
        assert forall|c: Seq<u64>| #![trigger clq_list(g1.sh(), c)] clq_list(g1.sh(), c) && lists_k(g1.sh(), v as int, g1.store_of(v as int), c) && c.len() == g1.store_of(v as int).len() implies
            stepped(e0, old(self).G@[0], self.en@[0], c) by {
            lemma_left_step(e0, self.en@[0], g1, v as int, g1.store_of(v as int), c);
        }
        assert forall|b: nwgraph| #![trigger b.gwf()] b == (nwgraph { edge_bits: b.edge_bits, ..g1 }) && b.edge_bits@ == g1.edge_bits@ && b.edge_bits.gen == g1.edge_bits.gen implies b.gwf() && b.sh() == g1.sh() by { lemma_read(g1, b); }
    }
