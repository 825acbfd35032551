@lib
impl pygraph {
    pub open spec fn g(self) -> graph { self.G@[0] }
    pub open spec fn loaded(self) -> bool { self.G@.len() > 0 && self.nvert > 0 }
    pub open spec fn pwf(self) -> bool {
        self.G@.len() > 0 ==> self.g().gwf() && self.g().search_cur == self.g().search_start && self.g().n_vert == self.nvert + 1
            && self.nedges == edges_of(self.g().sh()).len() && self.nedges < 0x1000_0000_0000
    }
}

// the graph has this many vertices and exactly these edges
pub open spec fn made(r: pygraph, n: int, e: spec_fn(int, int) -> bool) -> bool {
    &&& r.pwf() && r.G@.len() == 1 && r.nvert == n && !r.finished_all && r.current_vertex == 0
    &&& forall|x: int, y: int| #[trigger] r.g().sh().adj(x, y) == ((0 <= x == y <= n) || e(x, y))
}
// the same vertices and edges
pub open spec fn alike(g: pygraph, h: pygraph) -> bool {
    h.pwf() && h.G@.len() == 1 && h.nvert == g.nvert && h.nedges == g.nedges && (forall|x: int, y: int| #[trigger] h.g().sh().adj(x, y) == g.g().sh().adj(x, y))
}

@fn pygraph::check_loaded()
@ensures
    r is Ok == self.loaded(),

@fn pygraph::get_correspondence2(len1, len2, clique)
@locals u64 i, u64 t1, u64 t2
@ensures
    r is Err == (len2 == 0 || exists|i: int| 0 <= i < clique@.len() && #[trigger] clique@[i] == 0),
    r matches Ok(p) ==> decoded(clique@, len2 as int, p.first@, p.second@),
@loop 1
@invariant
    i <= clique@.len(), len2 > 0, decoded(clique@.take(i as int), len2 as int, ans.first@, ans.second@), 
    forall|k: int| 0 <= k < i ==> #[trigger] clique@[k] != 0,
@loop_decreases
    clique@.len() - i
@at loop 1 end
    proof {
        let a = clique@.take(i as int);
        assert forall|k: int| 0 <= k < a.len() implies #[trigger] ans.first@[k] == (a[k] - 1) / len2 as int && ans.second@[k] == (a[k] - 1) % len2 as int by {}
    }
@at end
    proof { assert(clique@.take(i as int) =~= clique@); }

@fn pygraph::new()
@ensures
    !r.loaded(), r.pwf(), r.G@.len() == 0, r.nvert == 0, r.nedges == 0, !r.finished_all, r.current_vertex == 0,

@fn pygraph::load_graph(n_vertices, n_edges, edges)
@requires
    n_vertices + 1 < 0x1_0000_0000, edges_ok(old(edges).first@, old(edges).second@, n_vertices as int),
@ensures
    final(self).pwf(), final(self).G@.len() == 1, final(self).nvert == n_vertices, !final(self).finished_all, final(self).current_vertex == 0,
    forall|x: int, y: int| #[trigger] final(self).g().sh().adj(x, y) == hasp(old(edges).first@, old(edges).second@, x, y),
    final(self).nedges == edges_of(final(self).g().sh()).len(),
@loop 1
@invariant
    self.G@ == gs, gs.len() == 1, i <= self.g().n_vert, self.g().lay(), self.nedges == epr(self.g().sh(), i as int, 0).len(),
    *self == (pygraph { nedges: self.nedges, ..p0 }),
@loop_decreases
    gs[0].n_vert - i
@loop 2
@invariant
    self.G@ == gs, gs.len() == 1, i < self.g().n_vert, self.g().lay(), self.g().sh().v[i as int].spos < k <= self.g().sh().v[i as int].N,
    self.nedges == epr(self.g().sh(), i as int, k as int).len(),
    *self == (pygraph { nedges: self.nedges, ..p0 }),
@loop_decreases
    gs[0].sh().v[i as int].N - k
@at before /self\.nedges = 0u64/
    let ghost gs = self.G@;
    proof { reveal(edges_of); lemma_few(self.g().sh(), old(edges).first@, old(edges).second@); }
    let ghost p0 = *self;
@at loop 1 begin
    proof { assert(self.g().sh().vok(i as int)); assert(self.g().sh().v[i as int] == vsh(self.g().vertices@[i as int])); }
@at loop 2 begin
    proof { assert(self.g().sh().vok(i as int)); assert(self.g().sh().v[i as int] == vsh(self.g().vertices@[i as int])); lemma_epr_step(self.g().sh(), i as int, k as int); }

@fn core_iso_edges(nv, ne, g1, g2)
@requires
    g1.pwf(), g2.pwf(), g1.nvert * g2.nvert < 0xFFFF_FFF0,
@ensures
    r is Ok == (g1.loaded() && g2.loaded()),
    r matches Ok(p) ==> *final(nv) == g1.nvert * g2.nvert && edges_ok(p.first@, p.second@, g1.nvert * g2.nvert)
        && forall|x: int, y: int| #[trigger] hasp(p.first@, p.second@, x, y) == ((0 <= x == y <= g1.nvert * g2.nvert) || isoc(g1.g().sh(), g2.g().sh(), x, y)),
