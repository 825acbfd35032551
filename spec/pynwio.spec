@lib
// the graph has this many vertices and exactly these edges
pub open spec fn made(r: pynwgraph, n: int, e: spec_fn(int, int) -> bool, w: spec_fn(int) -> real) -> bool {
    &&& r.pwf() && r.G@.len() == 1 && r.nvert == n && !r.finished_all && r.current_vertex == 0
    &&& forall|x: int, y: int| #[trigger] r.g().sh().adj(x, y) == ((0 <= x == y <= n) || e(x, y))
    &&& r.g().sh().v[0].w == 0real && forall|u: int| 1 <= u <= n ==> (#[trigger] r.g().sh().v[u]).w == w(u)
}
// the given weights after one for the sentinel
pub open spec fn wts_of(w: Seq<Dbl>, n: int, f: spec_fn(int) -> real) -> bool { w.len() == n && (n > 0 ==> w[0]@ == 0real) && forall|u: int| 1 <= u < n ==> (#[trigger] w[u])@ == f(u) }
// the same vertices and edges
pub open spec fn alike(g: pynwgraph, h: pynwgraph) -> bool {
    h.pwf() && h.G@.len() == 1 && h.nvert == g.nvert && h.nedges == g.nedges && (forall|x: int, y: int| #[trigger] h.g().sh().adj(x, y) == g.g().sh().adj(x, y))
        && forall|u: int| 1 <= u <= g.nvert ==> (#[trigger] h.g().sh().v[u]).w == g.g().sh().v[u].w
}
// what is exported of a graph and loaded again gives the same graph
proof fn lemma_round_el(g: pynwgraph, h: pynwgraph, e: NdArray<u64>, wts: Seq<Dbl>)
    requires g.pwf(), g.loaded(), e.dims() == 2, e.n0() == g.nedges, e.n1() == 2, rows_of(e, g.nedges as int, edges_of(g.g().sh())), wts.len() == g.nvert, forall|u: int| 0 <= u < g.nvert ==> (#[trigger] wts[u])@ == g.g().sh().v[u + 1].w,
    ensures el_ok(e, g.nvert as int), made(h, g.nvert as int, |x: int, y: int| el_to(e, e.n0(), x, y), |u: int| wts[u - 1]@) ==> alike(g, h),
{
    lemma_back_el(g.g().sh(), g.nvert as int, e);
    if made(h, g.nvert as int, |x: int, y: int| el_to(e, e.n0(), x, y), |u: int| wts[u - 1]@) { lemma_same_graph(g.g().sh(), h.g().sh()); assert forall|u: int| 1 <= u <= g.nvert implies (#[trigger] h.g().sh().v[u]).w == g.g().sh().v[u].w by { assert(wts[u - 1]@ == g.g().sh().v[u - 1 + 1].w); } }
}
proof fn lemma_round_am(g: pynwgraph, h: pynwgraph, a: NdArray<bool>, wts: Seq<Dbl>)
    requires g.pwf(), g.loaded(), a.n0() == g.nvert, forall|x: int, y: int| 0 <= x < g.nvert && 0 <= y < g.nvert ==> #[trigger] a.el(x, y) == (x != y && g.g().sh().adj(x + 1, y + 1)), wts.len() == g.nvert, forall|u: int| 0 <= u < g.nvert ==> (#[trigger] wts[u])@ == g.g().sh().v[u + 1].w,
    ensures made(h, a.n0(), |x: int, y: int| am_rel(a, x, y), |u: int| wts[u - 1]@) ==> alike(g, h),
{
    lemma_back_am(g.g().sh(), g.nvert as int, a);
    if made(h, a.n0(), |x: int, y: int| am_rel(a, x, y), |u: int| wts[u - 1]@) { lemma_same_graph(g.g().sh(), h.g().sh()); assert forall|u: int| 1 <= u <= g.nvert implies (#[trigger] h.g().sh().v[u]).w == g.g().sh().v[u].w by { assert(wts[u - 1]@ == g.g().sh().v[u - 1 + 1].w); } }
}
proof fn lemma_round_al(g: pynwgraph, h: pynwgraph, a: Seq<StdSet>, wts: Seq<Dbl>)
    requires g.pwf(), g.loaded(), a.len() == g.nvert + 1, forall|x: int, y: u64| 0 <= x <= g.nvert ==> #[trigger] a[x]@.contains(y) == (x != y && g.g().sh().adj(x, y as int)), wts.len() == g.nvert, forall|u: int| 0 <= u < g.nvert ==> (#[trigger] wts[u])@ == g.g().sh().v[u + 1].w,
    ensures al_ok(a, g.nvert as int, g.nedges as int), made(h, g.nvert as int, |x: int, y: int| al_has(a, x, y), |u: int| wts[u - 1]@) ==> alike(g, h),
{
    lemma_back_al(g.g().sh(), g.nvert as int, a);
    if made(h, g.nvert as int, |x: int, y: int| al_has(a, x, y), |u: int| wts[u - 1]@) { lemma_same_graph(g.g().sh(), h.g().sh()); assert forall|u: int| 1 <= u <= g.nvert implies (#[trigger] h.g().sh().v[u]).w == g.g().sh().v[u].w by { assert(wts[u - 1]@ == g.g().sh().v[u - 1 + 1].w); } }
}

@fn nw_from_edgelist(edge_list1, no_of_vertices, weights1)
@locals u64 v1, u64 v2
@requires
    no_of_vertices + 1 < 0x1_0000_0000, edge_list1.n0() <= i32::MAX,
@ensures
    r is Ok == (el_ok(edge_list1, no_of_vertices as int) && weights1.dims() == 1 && weights1.n0() == no_of_vertices),
    r matches Ok(p) ==> made(p, no_of_vertices as int, |x: int, y: int| el_to(edge_list1, edge_list1.n0(), x, y), |u: int| weights1.el(u - 1, 0)@),
@loop 1
@invariant
    i <= no_of_vertices, no_of_vertices + 1 < 0x1_0000_0000, wts@.len() == no_of_vertices + 1, wts@[0]@ == 0real, weights1.dims() == 1, weights1.n0() == no_of_vertices, 
    forall|u: int| 1 <= u <= i ==> (#[trigger] wts@[u])@ == weights1.el(u - 1, 0)@,
@loop_decreases
    no_of_vertices - i
@loop 2
@invariant
    no_of_vertices + 1 < 0x1_0000_0000, edges.first@.len() == edges.second@.len() == (if sized { no_of_vertices + 1 } else { i as int }), i <= no_of_vertices + 1,
    forall|k: int| 0 <= k < i ==> #[trigger] edges.first@[k] == k, forall|k: int| 0 <= k < i ==> #[trigger] edges.second@[k] == k,
@loop_decreases
    no_of_vertices + 1 - i
@at loop 2 before
    let ghost sized = edges.first@.len() > 0;
    #[verifier::loop_isolation(false)]
@loop 3
@invariant
    0 <= i <= edge_list1.n0() <= i32::MAX, edge_list1.dims() == 2, edge_list1.n1() == 2, no_of_edges == i,
    1 <= edges.first@.len() == edges.second@.len() < 0x1000_0000_0000,
    forall|k: int| 0 <= k < i ==> #[trigger] row_ok(edge_list1, no_of_vertices as int, k),
    forall|k: int| 0 <= k < edges.first@.len() ==> #[trigger] edges.first@[k] <= no_of_vertices && edges.second@[k] <= no_of_vertices,
    forall|x: int, y: int| #[trigger] hasp(edges.first@, edges.second@, x, y) == ((0 <= x == y <= no_of_vertices) || el_to(edge_list1, i as int, x, y)),
@loop_decreases
    edge_list1.n0() - i
@at loop 2 after
    proof { lemma_ids(edges.first@, edges.second@, no_of_vertices as int); }
@at loop 3 begin
    let ghost p0 = edges.first@; let ghost q0 = edges.second@;
    proof { lemma_el_step(edge_list1, i as int, p0, q0, no_of_vertices as int); assert(row_ok(edge_list1, no_of_vertices as int, i as int) == (1 <= edge_list1.el(i as int, 0) <= no_of_vertices && 1 <= edge_list1.el(i as int, 1) <= no_of_vertices)); }
@at loop 3 after
    proof { lemma_el_end(edge_list1, edges.first@, edges.second@, no_of_vertices as int); }

@fn nw_from_adj_matrix(adjmat1, weights1)
@requires
    adjmat1.n0() + 1 < 0x1_0000_0000,
@ensures
    r is Ok == (adjmat1.dims() == 2 && adjmat1.n0() == adjmat1.n1() && weights1.dims() == 1 && weights1.n0() == adjmat1.n0()),
    r matches Ok(p) ==> made(p, adjmat1.n0(), |x: int, y: int| am_rel(adjmat1, x, y), |u: int| weights1.el(u - 1, 0)@),
@loop 1
@invariant
    i <= no_of_vertices, no_of_vertices == adjmat1.n0() < 0x1_0000_0000, wts@.len() == i + 1, wts@[0]@ == 0real, weights1.dims() == 1, weights1.n0() == no_of_vertices,
    forall|u: int| 1 <= u <= i ==> (#[trigger] wts@[u])@ == weights1.el(u - 1, 0)@,
@loop_decreases
    no_of_vertices - i
@loop 2
@invariant
    0 <= i <= no_of_vertices, no_of_vertices == adjmat1.n0() == adjmat1.n1() < 0x1_0000_0000, adjmat1.dims() == 2,
    am_inv(adjmat1, i as int, 0, edges.first@, edges.second@), no_of_edges <= edges.first@.len(),
@loop_decreases
    no_of_vertices - i
@loop 3
@invariant
    0 <= i < no_of_vertices, j <= no_of_vertices, no_of_vertices == adjmat1.n0() == adjmat1.n1() < 0x1_0000_0000, adjmat1.dims() == 2,
    am_inv(adjmat1, i as int, j as int, edges.first@, edges.second@), no_of_edges <= edges.first@.len(),
@loop_decreases
    no_of_vertices - j
@at loop 2 before
    proof { lemma_am_start(adjmat1, edges.first@, edges.second@); }
@at loop 3 begin
    let ghost p0 = edges.first@; let ghost q0 = edges.second@;
@at loop 3 body_end
    proof { lemma_am_step(adjmat1, i as int, j as int, p0, q0, edges.first@, edges.second@); }
@at loop 3 after
    proof { lemma_am_row(adjmat1, i as int, edges.first@, edges.second@); }
@at loop 2 after
    proof { lemma_am_end(adjmat1, edges.first@, edges.second@); }

@fn nw_from_adj_list(n_vertices, n_edges, edges, weights)
@opt wrapping_sub
@locals u64 e
@requires
    n_vertices + 1 < 0x1_0000_0000, edges@.len() < u64::MAX,
@ensures
    r is Ok == (al_ok(edges@, n_vertices as int, n_edges as int) && weights@.len() == n_vertices),
    r matches Ok(p) ==> made(p, n_vertices as int, |x: int, y: int| al_has(edges@, x, y), |u: int| weights@[u - 1]@),
@loop 1
@invariant
    i <= edges@.len() == n_vertices + 1, n_vertices + 1 < 0x1_0000_0000, edges@[0]@.len() == 0,
    al_inv(edges@, n_vertices as int, i as int, false, Seq::empty(), 0, edges2.first@, edges2.second@),
    e == total(edges@, i as int), e <= edges2.first@.len(),
@loop_decreases
    edges@.len() - i
@loop 2
@invariant
    i < edges@.len() == n_vertices + 1, n_vertices + 1 < 0x1_0000_0000, it_j <= list_j@.len(), lists(list_j@, edges@[i as int]@), list_j@.len() < 0x1000_0000_0000,
    al_inv(edges@, n_vertices as int, i as int, true, list_j@, it_j as int, edges2.first@, edges2.second@),
    e == total(edges@, i as int) + it_j, e <= edges2.first@.len(),
@loop_decreases
    list_j@.len() - it_j
@at loop 1 begin
    let ghost p0 = edges2.first@; let ghost q0 = edges2.second@;
@at loop 2 before
    proof { lemma_al_open(edges@, n_vertices as int, i as int, list_j@, p0, q0); }
@at loop 2 begin
    let ghost p1 = edges2.first@; let ghost q1 = edges2.second@;
    proof { assert(edges@[i as int]@.contains(list_j@[it_j as int])); assert(al_has(edges@, i as int, list_j@[it_j as int] as int)); }
@at loop 2 body_end
    proof { lemma_al_step(edges@, n_vertices as int, i as int, list_j@, it_j as int, p1, q1); }
@at loop 2 after
    proof { lemma_al_close(edges@, n_vertices as int, i as int, list_j@, edges2.first@, edges2.second@); }
@at loop 1 before
    proof { assert(al_inv(edges@, n_vertices as int, 0, false, Seq::empty(), 0, edges2.first@, edges2.second@)) by { assert forall|x: int, y: int| !#[trigger] hasp(edges2.first@, edges2.second@, x, y) by {} } }
@at loop 1 after
    proof { lemma_al_end(edges@, n_vertices as int, edges2.first@, edges2.second@); }

@fn nwgraph::vertex_data(i)
@requires
    self.lay(), i < self.n_vert,
@ensures
    r.first@ == self.sh().v[i as int].w,
    forall|x: u64| #[trigger] r.second@.contains(x) == (x != i && self.sh().adj(i as int, x as int)),
@at begin
    proof {
        let s = self.sh();
        assert(s.vok(i as int)); assert(s.v[i as int] == vsh(self.vertices@[i as int]));
        assert forall|x: u64| #[trigger] ranges(self.edge_list@, s.v[i as int].elo, s.v[i as int].elo + s.v[i as int].N, x) == s.adj(i as int, x as int) by { lemma_nb_range(s, i as int, x); }
        assert(s.nb(i as int, s.v[i as int].spos) == i); assert(s.adj(i as int, i as int));
    }

@fn pynwgraph::get_vertex_data(i)
@requires
    self.pwf(),
@ensures
    r is Ok == (self.loaded() && i <= self.nvert),
    r matches Ok(p) ==> p.first@ == self.g().sh().v[i as int].w && forall|x: u64| #[trigger] p.second@.contains(x) == (x != i && self.g().sh().adj(i as int, x as int)),

@fn pynwgraph::to_edgelist()
@locals u64 k
@requires
    self.pwf(),
@ensures
    r is Ok == self.loaded(),
    r matches Ok(e) ==> e.dims() == 2 && e.n0() == self.nedges && e.n1() == 2 && rows_of(e, self.nedges as int, edges_of(self.g().sh())),
@loop 1
@invariant
    self.pwf(), self.loaded(), i <= self.g().n_vert, s == self.g().sh(), s.ok(), elist1.dims() == 2, elist1.n0() == self.nedges, elist1.n1() == 2, rows_of(elist1, k as int, epr(s, i as int, 0)),
@loop_decreases
    self.g().n_vert - i
@loop 2
@invariant
    self.pwf(), self.loaded(), i < self.g().n_vert, s == self.g().sh(), s.ok(), elist1.dims() == 2, elist1.n0() == self.nedges, elist1.n1() == 2, s.v[i as int].spos < k_in <= s.v[i as int].N,
    rows_of(elist1, k as int, epr(s, i as int, k_in as int)),
@loop_decreases
    s.v[i as int].N - k_in
@at begin
    let ghost s = self.g().sh();
    proof { reveal(edges_of); }
@at loop 1 before
    proof { assert(epr(s, 0, 0) =~= Set::<(int, int)>::empty()); }
@at loop 1 begin
    proof { assert(s.vok(i as int)); assert(s.v[i as int] == vsh(self.g().vertices@[i as int])); lemma_epr_ends(s, i as int); }
@at loop 2 begin
    let ghost e0 = elist1; let ghost k0 = k;
    proof { assert(s.vok(i as int)); assert(s.v[i as int] == vsh(self.g().vertices@[i as int])); lemma_epr_step(self.g().sh(), i as int, k_in as int); lemma_epr_room(self.g().sh(), i as int, k_in as int); }
@at loop 2 body_end
    proof { lemma_rows(e0, elist1, k0 as int, epr(s, i as int, k_in as int), i, s.nb(i as int, k_in as int) as u64); }

@fn pynwgraph::to_adj_matrix()
@requires
    self.pwf(),
@ensures
    r is Ok == self.loaded(),
    r matches Ok(a) ==> a.dims() == 2 && a.n0() == self.nvert && a.n1() == self.nvert
        && forall|x: int, y: int| 0 <= x < self.nvert && 0 <= y < self.nvert ==> #[trigger] a.el(x, y) == (x != y && self.g().sh().adj(x + 1, y + 1)),
@loop 1
@invariant
    i <= self.nvert < 0x1_0000_0000, adjmat1.dims() == 2, adjmat1.n0() == self.nvert, adjmat1.n1() == self.nvert, 
    forall|x: int, y: int| 0 <= x < i && 0 <= y < self.nvert ==> !#[trigger] adjmat1.el(x, y),
@loop_decreases
    self.nvert - i
@loop 2
@invariant
    i < self.nvert < 0x1_0000_0000, j <= self.nvert, adjmat1.dims() == 2, adjmat1.n0() == self.nvert, adjmat1.n1() == self.nvert, 
    forall|x: int, y: int| 0 <= x < i && 0 <= y < self.nvert || x == i && 0 <= y < j ==> !#[trigger] adjmat1.el(x, y),
@loop_decreases
    self.nvert - j
@loop 3
@invariant
    self.pwf(), self.loaded(), i_in <= self.g().n_vert, s == self.g().sh(), s.ok(), am_of(adjmat1, self.nvert as int, epr(s, i_in as int, 0)),
@loop_decreases
    self.g().n_vert - i_in
@loop 4
@invariant
    self.pwf(), self.loaded(), i_in < self.g().n_vert, s == self.g().sh(), s.ok(), s.v[i_in as int].spos < k <= s.v[i_in as int].N, am_of(adjmat1, self.nvert as int, epr(s, i_in as int, k as int)),
@loop_decreases
    s.v[i_in as int].N - k
@at begin
    let ghost s = self.g().sh();
    proof { if self.loaded() { assert(self.nvert * self.nvert <= 0xFFFF_FFFF * 0xFFFF_FFFF) by(nonlinear_arith) requires self.nvert <= 0xFFFF_FFFF; } }
@at loop 3 before
    proof { assert(epr(s, 0, 0) =~= Set::<(int, int)>::empty()); }
@at loop 3 begin
    proof { assert(s.vok(i_in as int)); assert(s.v[i_in as int] == vsh(self.g().vertices@[i_in as int])); lemma_epr_ends(s, i_in as int); }
@at loop 4 begin
    proof { assert(s.vok(i_in as int)); assert(s.v[i_in as int] == vsh(self.g().vertices@[i_in as int])); lemma_epr_step(self.g().sh(), i_in as int, k as int); lemma_side(s, i_in as int, k as int); }
@at end
    proof { reveal(edges_of); assert forall|x: int, y: int| 0 <= x < self.nvert && 0 <= y < self.nvert implies #[trigger] adjmat1.el(x, y) == (x != y && self.g().sh().adj(x + 1, y + 1)) by { lemma_am_all(self.g().sh(), x + 1, y + 1); } }

@fn pynwgraph::to_adj_list()
@requires
    self.pwf(),
@ensures
    r is Ok == self.loaded(),
    r matches Ok(a) ==> a@.len() == self.nvert + 1 && forall|x: int, y: u64| 0 <= x <= self.nvert ==> #[trigger] a@[x]@.contains(y) == (x != y && self.g().sh().adj(x, y as int)),
@loop 1
@invariant
    self.pwf(), self.loaded(), i <= self.g().n_vert, s == self.g().sh(), s.ok(), al_of(edges@, self.nvert as int, epr(s, i as int, 0)),
@loop_decreases
    self.g().n_vert - i
@loop 2
@invariant
    self.pwf(), self.loaded(), i < self.g().n_vert, s == self.g().sh(), s.ok(), s.v[i as int].spos < k <= s.v[i as int].N, al_of(edges@, self.nvert as int, epr(s, i as int, k as int)),
@loop_decreases
    s.v[i as int].N - k
@at begin
    let ghost s = self.g().sh();
    proof { reveal(edges_of); }
@at loop 1 before
    proof { assert(epr(s, 0, 0) =~= Set::<(int, int)>::empty()); }
@at loop 1 begin
    proof { assert(s.vok(i as int)); assert(s.v[i as int] == vsh(self.g().vertices@[i as int])); lemma_epr_ends(s, i as int); }
@at loop 2 begin
    proof { assert(s.vok(i as int)); assert(s.v[i as int] == vsh(self.g().vertices@[i as int])); lemma_epr_step(self.g().sh(), i as int, k as int); lemma_side(s, i as int, k as int); }
@at end
    proof { reveal(edges_of); assert forall|x: int, y: u64| 0 <= x <= self.nvert implies #[trigger] edges@[x]@.contains(y) == (x != y && self.g().sh().adj(x, y as int)) by { lemma_am_all(self.g().sh(), x, y as int); } }

@fn nwgraph::get_all_weights()
@requires
    self.lay(),
@ensures
    r@.len() == self.n_vert, forall|u: int| 0 <= u < self.n_vert ==> (#[trigger] r@[u])@ == self.sh().v[u].w,
@loop 1
@invariant
    i <= self.n_vert, self.lay(), wts@.len() == self.n_vert, forall|u: int| 0 <= u < i ==> (#[trigger] wts@[u])@ == self.sh().v[u].w,
@loop_decreases
    self.n_vert - i

@fn pynwgraph::get_all_weights()
@requires
    self.pwf(),
@ensures
    r is Ok == self.loaded(),
    r matches Ok(w) ==> w@.len() == self.nvert && forall|u: int| 0 <= u < self.nvert ==> (#[trigger] w@[u])@ == self.g().sh().v[u + 1].w,
