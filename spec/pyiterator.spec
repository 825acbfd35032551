@lib
// a set of vertices that will still be reported
pub open spec fn left(e: CliqueEnumerator, s: Sh, q: Set<int>) -> bool {
    s.clq(q) && exists|u: int| #[trigger] first(s, u, q) && e.todo(s, u, kset(s, u, q))
}
proof fn lemma_left_new(e: CliqueEnumerator, s: Sh)
    requires s.ok(), forall|u: int, q: Set<int>| e.todo(s, u, q) == #[trigger] wanted(s, e.r(), u, q),
    ensures forall|q: Set<int>| #[trigger] left(e, s, q) == (s.clq(q) && q.len() == e.r() && q.len() > 0),
{
    assert forall|q: Set<int>| #[trigger] left(e, s, q) == (s.clq(q) && q.len() == e.r() && q.len() > 0) by {
        if s.clq(q) && q.len() > 0 {
            lemma_first_of(s, q);
            let u = choose|u: int| #[trigger] first(s, u, q);
            assert(wanted(s, q.len() as int, u, kset(s, u, q)));
            if q.len() == e.r() { assert(wanted(s, e.r(), u, kset(s, u, q))); }
            if left(e, s, q) { let v = choose|v: int| #[trigger] first(s, v, q) && e.todo(s, v, kset(s, v, q)); assert(wanted(s, e.r(), v, kset(s, v, q))); }
        } else if left(e, s, q) { let v = choose|v: int| #[trigger] first(s, v, q) && e.todo(s, v, kset(s, v, q)); assert(q.contains(v)); }
    }
}
// one call of the enumerator, in terms of sets of vertices
proof fn lemma_left_step(e0: CliqueEnumerator, e: CliqueEnumerator, s: Sh, v: int, k: Set<int>, c: Seq<u64>)
    requires s.ok(), e0.todo(s, v, k), clq_list(s, c), lists_k(s, v, k, c), c.len() == k.len(),
        forall|u: int, q: Set<int>| #[trigger] e.todo(s, u, q) == (e0.todo(s, u, q) && !(u == v && q == k)),
    ensures left(e0, s, vset(c)), c.len() == e0.r(), forall|q: Set<int>| #[trigger] left(e, s, q) == (left(e0, s, q) && q != vset(c)),
{
    lemma_listed(s, v, k, c);
    let p = vset(c);
    assert forall|q: Set<int>| #[trigger] left(e, s, q) == (left(e0, s, q) && q != p) by {
        if left(e, s, q) {
            let u = choose|u: int| #[trigger] first(s, u, q) && e.todo(s, u, kset(s, u, q));
            assert(first(s, u, q) && e0.todo(s, u, kset(s, u, q)));
            if q == p { assert(q.contains(u)); lemma_first_of(s, p); assert(u == v); }
        }
        if left(e0, s, q) && q != p {
            let u = choose|u: int| #[trigger] first(s, u, q) && e0.todo(s, u, kset(s, u, q));
            if u == v && kset(s, u, q) == k { assert(q == p); }
            assert(first(s, u, q) && e.todo(s, u, kset(s, u, q)));
        }
    }
}
pub open spec fn iwf(en: Seq<CliqueEnumerator>, g: Seq<graph>) -> bool {
    en.len() == 1 && g.len() > 0 && g[0].gwf() && en[0].ewf(g[0].sh()) && en[0].cur < u64::MAX
}
// what a call does to the graph and to the cliques still to come: c is one of them, and is not reported again
pub open spec fn stepped(en0: CliqueEnumerator, g0: graph, en: CliqueEnumerator, c: Seq<u64>) -> bool {
    &&& clq_list(g0.sh(), c) && c.len() == en0.r() && left(en0, g0.sh(), vset(c))
    &&& forall|q: Set<int>| #[trigger] left(en, g0.sh(), q) == (left(en0, g0.sh(), q) && q != vset(c))
}
pub open spec fn none_left(en: CliqueEnumerator, s: Sh) -> bool { forall|q: Set<int>| !#[trigger] left(en, s, q) }
// the graph is the same but for what is stored per vertex
pub open spec fn same_graph(g0: graph, g: graph) -> bool { g.gwf() && g.sh() == g0.sh() && g == (graph { edge_bits: g.edge_bits, ..g0 }) }
proof fn lemma_none(e: CliqueEnumerator, s: Sh)
    requires forall|u: int, q: Set<int>| !#[trigger] e.todo(s, u, q),
    ensures none_left(e, s),
{}
// no clique has no vertices
proof fn lemma_none0(e: CliqueEnumerator, s: Sh)
    requires e.r() == 0,
    ensures none_left(e, s),
{
    assert forall|q: Set<int>| !#[trigger] left(e, s, q) by {
        if left(e, s, q) { let u = choose|u: int| #[trigger] first(s, u, q) && e.todo(s, u, kset(s, u, q)); assert(kset(s, u, q).contains(s.v[u].spos)); }
    }
}
// reading a clique leaves the graph as it is
proof fn lemma_read(a: graph, b: graph)
    requires a.gwf(), b == (graph { edge_bits: b.edge_bits, ..a }), b.edge_bits@ == a.edge_bits@, b.edge_bits.gen == a.edge_bits.gen,
    ensures b.gwf(), b.sh() == a.sh(),
{
    assert(b.sh() == a.sh());
    assert forall|w: int| 0 <= w < b.n_vert implies #[trigger] b.vlay(w) by { assert(a.vlay(w)); }
    assert forall|w: int| 0 <= w < b.n_vert implies #[trigger] b.vsto(w) by { assert(a.vsto(w)); }
    assert forall|w: int| 1 <= w < b.n_vert implies #[trigger] b.vroom(w) by { assert(a.vroom(w)); }
    assert forall|w: int| 0 <= w < b.n_vert implies #[trigger] b.vmcs(w) by { assert(a.vmcs(w)); }
}

@fn CliqueIterator::new_pygraph_pyobj_u(p, rf, clique_size)
@requires
    p.pwf(),
@ensures
    r is Ok == p.loaded(),
    r matches Ok(t) ==> iwf(t.en@, t.G@) && t.G@ == p.G@ && t.pg == *p && t.en@[0].r() == clique_size
        && (forall|q: Set<int>| #[trigger] left(t.en@[0], p.g().sh(), q) == (p.g().sh().clq(q) && q.len() == clique_size && q.len() > 0)),
@at end
    proof { lemma_left_new(this_.en@[0], p.g().sh()); }

@fn CliqueIterator::next_clique()
@locals u64 v
@opt loops_any
@requires
    iwf(old(self).en@, old(self).G@),
@ensures
    final(self).en@.len() == 1, final(self).G@.len() == old(self).G@.len(), same_graph(old(self).G@[0], final(self).G@[0]), final(self).en@[0].ewf(old(self).G@[0].sh()),
    final(self).en@[0].REQUIRED_SIZE == old(self).en@[0].REQUIRED_SIZE,
    // a clique of that size that was not reported before, or there is none
    r matches Ok(c) ==> stepped(old(self).en@[0], old(self).G@[0], final(self).en@[0], c@),
    // the iterator can be asked again
    r is Ok ==> iwf(final(self).en@, final(self).G@),
    r is Err ==> none_left(old(self).en@[0], old(self).G@[0].sh()) && none_left(final(self).en@[0], old(self).G@[0].sh()) && final(self).G@[0] == old(self).G@[0] && final(self).pg == old(self).pg,
    // an interrupted search starts again
    r is Ok ==> final(self).pg == (pygraph { current_vertex: 0, finished_all: false, ..old(self).pg }),
@loop 1
@invariant_except_break
    *self == *old(self), iwf(self.en@, self.G@),
@loop_ensures
    self.en@.len() == 1, self.G@.len() == old(self).G@.len(), self.G@.len() > 0, self.G@[0] == old(self).G@[0], self.G@[0].gwf(), self.en@[0].ewf(self.G@[0].sh()),
    self.en@[0].REQUIRED_SIZE == old(self).en@[0].REQUIRED_SIZE, self.pg == old(self).pg,
    none_left(old(self).en@[0], self.G@[0].sh()), none_left(self.en@[0], self.G@[0].sh()),
@loop_decreases
    0int
@at after /process_graph/
    let ghost g1 = self.G@[0]; let ghost e0 = old(self).en@[0];
    proof {
        assert(g1.gwf()); assert(g1.n_vert == g1.vertices@.len());
        if v >= g1.n_vert {
            if e0.r() == 0 { lemma_none0(e0, g1.sh()); lemma_none0(self.en@[0], g1.sh()); }
            else { lemma_none(e0, g1.sh()); lemma_none(self.en@[0], g1.sh()); }
        }
    }
@at before /return Ok/
    proof {
        assert(g1.vsto(v as int));
        assert forall|c: Seq<u64>| #![trigger clq_list(g1.sh(), c)] clq_list(g1.sh(), c) && lists_k(g1.sh(), v as int, g1.store_of(v as int), c) && c.len() == g1.store_of(v as int).len() implies
            stepped(e0, old(self).G@[0], self.en@[0], c) by {
            lemma_left_step(e0, self.en@[0], g1.sh(), v as int, g1.store_of(v as int), c);
        }
        assert forall|b: graph| #![trigger b.gwf()] b == (graph { edge_bits: b.edge_bits, ..g1 }) && b.edge_bits@ == g1.edge_bits@ && b.edge_bits.gen == g1.edge_bits.gen implies b.gwf() && b.sh() == g1.sh() by { lemma_read(g1, b); }
    }

@fn CorrespondenceIterator::new_pygraph_pyobj_u_u_u(p, rf, len1, len2, clique_size)
@requires
    p.pwf(),
@ensures
    r is Ok == p.loaded(),
    r matches Ok(t) ==> iwf(t.en@, t.G@) && t.G@ == p.G@ && t.pg == *p && t.en@[0].r() == clique_size && t.len1 == len1 && t.len2 == len2
        && (forall|q: Set<int>| #[trigger] left(t.en@[0], p.g().sh(), q) == (p.g().sh().clq(q) && q.len() == clique_size && q.len() > 0)),
@at end
    proof { lemma_left_new(this_.en@[0], p.g().sh()); }

@fn CorrespondenceIterator::next_clique()
@locals u64 v
@opt loops_any
@requires
    iwf(old(self).en@, old(self).G@),
@ensures
    final(self).en@.len() == 1, final(self).G@.len() == old(self).G@.len(), same_graph(old(self).G@[0], final(self).G@[0]), final(self).en@[0].ewf(old(self).G@[0].sh()),
    final(self).en@[0].REQUIRED_SIZE == old(self).en@[0].REQUIRED_SIZE, final(self).len1 == old(self).len1, final(self).len2 == old(self).len2,
    // the pairs of a clique of that size that was not reported before, or there is none
    r matches Ok(p) ==> exists|c: Seq<u64>| #[trigger] stepped(old(self).en@[0], old(self).G@[0], final(self).en@[0], c)
        && decoded(c, old(self).len2 as int, p.first@, p.second@),
    r is Ok ==> iwf(final(self).en@, final(self).G@),
    r is Err && old(self).len2 > 0 ==> none_left(old(self).en@[0], old(self).G@[0].sh()) && none_left(final(self).en@[0], old(self).G@[0].sh()) && final(self).G@[0] == old(self).G@[0] && final(self).pg == old(self).pg,
    r is Ok ==> final(self).pg == (pygraph { current_vertex: 0, finished_all: false, ..old(self).pg }),
@loop 1
@invariant_except_break
    *self == *old(self), iwf(self.en@, self.G@),
@loop_ensures
    self.en@.len() == 1, self.G@.len() == old(self).G@.len(), self.G@.len() > 0, self.G@[0] == old(self).G@[0], self.G@[0].gwf(), self.en@[0].ewf(self.G@[0].sh()),
    self.en@[0].REQUIRED_SIZE == old(self).en@[0].REQUIRED_SIZE, self.pg == old(self).pg, self.len1 == old(self).len1, self.len2 == old(self).len2,
    none_left(old(self).en@[0], self.G@[0].sh()), none_left(self.en@[0], self.G@[0].sh()),
@loop_decreases
    0int
@at after /process_graph/
    let ghost g1 = self.G@[0]; let ghost e0 = old(self).en@[0];
    proof {
        assert(g1.gwf()); assert(g1.n_vert == g1.vertices@.len());
        if v >= g1.n_vert {
            if e0.r() == 0 { lemma_none0(e0, g1.sh()); lemma_none0(self.en@[0], g1.sh()); }
            else { lemma_none(e0, g1.sh()); lemma_none(self.en@[0], g1.sh()); }
        }
    }
@at before /return Ok/
    proof {
        assert(g1.vsto(v as int));
        assert forall|c: Seq<u64>| #![trigger clq_list(g1.sh(), c)] clq_list(g1.sh(), c) && lists_k(g1.sh(), v as int, g1.store_of(v as int), c) && c.len() == g1.store_of(v as int).len() implies
            stepped(e0, old(self).G@[0], self.en@[0], c) by {
            lemma_left_step(e0, self.en@[0], g1.sh(), v as int, g1.store_of(v as int), c);
        }
        assert forall|b: graph| #![trigger b.gwf()] b == (graph { edge_bits: b.edge_bits, ..g1 }) && b.edge_bits@ == g1.edge_bits@ && b.edge_bits.gen == g1.edge_bits.gen implies b.gwf() && b.sh() == g1.sh() by { lemma_read(g1, b); }
    }
