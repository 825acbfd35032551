@lib
impl pynwgraph {
    pub open spec fn g(self) -> nwgraph { self.G@[0] }
    pub open spec fn loaded(self) -> bool { self.G@.len() > 0 && self.nvert > 0 }
    pub open spec fn pwf(self) -> bool {
        self.G@.len() > 0 ==> self.g().gwf() && self.g().search_cur == self.g().search_start && self.g().n_vert == self.nvert + 1
            && self.nedges == edges_of(self.g().sh()).len() && self.nedges < 0x1000_0000_0000
    }
}

@fn pynwgraph::check_loaded()
@ensures
    r is Ok == self.loaded(),

@fn pynwgraph::get_correspondence2(len1, len2, clique)
@locals u64 i, u64 t1, u64 t2
@ensures
    r is Err == (len2 == 0 || exists|i: int| 0 <= i < clique@.len() && #[trigger] clique@[i] == 0),
    r matches Ok(p) ==> decoded(clique@, len2 as int, p.first@, p.second@),
@loop 1
@invariant
    i <= clique@.len(), len2 > 0, decoded(clique@.take(i as int), len2 as int, ans.first@, ans.second@), 
    forall|k: int| 0 <= k < i ==> #[trigger] clique@[k] != 0,
@loop_decreases
    clique@.len() - i
@at loop 1 end
    proof {
        let a = clique@.take(i as int);
        assert forall|k: int| 0 <= k < a.len() implies #[trigger] ans.first@[k] == (a[k] - 1) / len2 as int && ans.second@[k] == (a[k] - 1) % len2 as int by {}
    }
@at end
    proof { assert(clique@.take(i as int) =~= clique@); }

@fn pynwgraph::new()
@ensures
    !r.loaded(), r.pwf(), r.G@.len() == 0, r.nvert == 0, r.nedges == 0, !r.finished_all, r.current_vertex == 0,

@fn pynwgraph::load_graph(n_vertices, n_edges, edges, weights)
@requires
    n_vertices + 1 < 0x1_0000_0000, old(weights)@.len() == n_vertices + 1, edges_ok(old(edges).first@, old(edges).second@, n_vertices as int),
@ensures
    final(self).pwf(), final(self).G@.len() == 1, final(self).nvert == n_vertices, !final(self).finished_all, final(self).current_vertex == 0,
    forall|x: int, y: int| #[trigger] final(self).g().sh().adj(x, y) == hasp(old(edges).first@, old(edges).second@, x, y),
    final(self).nedges == edges_of(final(self).g().sh()).len(),
    forall|u: int| 0 <= u <= n_vertices ==> (#[trigger] final(self).g().sh().v[u]).w == old(weights)@[u]@,
@loop 1
@invariant
    self.G@ == gs, gs.len() == 1, i <= self.g().n_vert, self.g().lay(), self.nedges == epr(self.g().sh(), i as int, 0).len(),
    *self == (pynwgraph { nedges: self.nedges, ..p0 }),
@loop_decreases
    gs[0].n_vert - i
@loop 2
@invariant
    self.G@ == gs, gs.len() == 1, i < self.g().n_vert, self.g().lay(), self.g().sh().v[i as int].spos < k <= self.g().sh().v[i as int].N,
    self.nedges == epr(self.g().sh(), i as int, k as int).len(),
    *self == (pynwgraph { nedges: self.nedges, ..p0 }),
@loop_decreases
    gs[0].sh().v[i as int].N - k
@at before /self\.nedges = 0u64/
    let ghost gs = self.G@;
    proof { reveal(edges_of); lemma_few(self.g().sh(), old(edges).first@, old(edges).second@); }
    let ghost p0 = *self;
@at loop 1 begin
    proof { assert(self.g().sh().vok(i as int)); assert(self.g().sh().v[i as int] == vsh(self.g().vertices@[i as int])); }
@at loop 2 begin
    proof { assert(self.g().sh().vok(i as int)); assert(self.g().sh().v[i as int] == vsh(self.g().vertices@[i as int])); lemma_epr_step(self.g().sh(), i as int, k as int); }
