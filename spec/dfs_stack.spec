@lib
pub open spec fn base3(g0: graph, g: graph, d: StackDFS, u: int, b: int, sw: bool, ids: Seq<int>, cs: Seq<Set<int>>, rg: graphBits) -> bool {
    let s = g0.sh(); let n = s.v[u].N;
    &&& gsrch(g0, g, u) && stk(d.states@, g.edge_bits, b, n, sw, ids, cs, rg) && ids_ok(s, u, ids) && cs_ok(s, u, ids, cs)
    &&& d.clique_size == ids.len() && d.request_size == blen(n) && g.search_cur == b + (ids.len() + 1) * blen(n)
    &&& b == g0.search_cur && b == g0.search_start && d.states@.len() == ids.len() && ids.len() == cs.len()
    &&& g0.CUR_MAX_CLIQUE_SIZE >= 1 && g.vertices@ == g0.vertices@ && g.edge_list@ == g0.edge_list@ && u < g.vertices@.len()
    &&& g.CLIQUE_LIMIT == g0.CLIQUE_LIMIT
}
pub open spec fn top4(d: StackDFS, cs: Seq<Set<int>>, n: int, ix: u64) -> bool {
    &&& d.states@.len() == cs.len() && cs.len() > 0 && ix == cs.len() - 1
    &&& d.j == d.states@[ix as int].start_at && d.j <= n && (d.j < n ==> cs.last().contains(d.j as int)) && (d.j >= n ==> cs.last().len() == 0)
    &&& d.candidates_left == cs.last().len() && d.candidates_left <= n
}
// room for one more state
proof fn lemma_more(bb: int, l: int, rc: int)
    requires bb >= 1, 0 <= l < rc,
    ensures (l + 1) * bb + bb == (l + 2) * bb, (l + 2) * bb <= 2 * (rc + 1) * bb, (l + 1) * bb < 2 * (rc + 1) * bb,
{
    assert((l + 1) * bb + bb == (l + 2) * bb && (l + 2) * bb <= 2 * (rc + 1) * bb) by(nonlinear_arith) requires bb >= 1, 0 <= l < rc;
}

@fn StackDFS::process_vertex(G, cur)
@locals SearchState x, u64 start, SearchState cur_state, SearchState future_state
@requires
    old(G).gwf(), 1 <= cur < old(G).n_vert, old(G).search_cur == old(G).search_start, old(G).CUR_MAX_CLIQUE_SIZE >= 1, old(self).states@.len() == 0,
@ensures
    final(G).gwf(), searched(*old(G), *final(G), cur as int), final(self).states@.len() == 0, final(self).i == old(self).i,
    final(G).CUR_MAX_CLIQUE_SIZE >= final(G).CLIQUE_LIMIT
        || forall|q: Set<int>| #[trigger] old(G).sh().rclq(cur as int, q) ==> q.len() <= final(G).CUR_MAX_CLIQUE_SIZE,
@loop 1
@invariant
    self.i == old(self).i,
    g0.gwf(), u == cur, 1 <= cur < g0.n_vert, s == g0.sh(), n == s.v[u].N, G.vertices@ == g0.vertices@, cur < G.vertices@.len(),
    self.states@.len() == 0, self.request_size == blen(n), self.j <= G.vertices@[u].spos < n, G.vertices@[u].N == n,
    rooti(g0, *G, x, u, b, sw, self.j as int, self.clique_potential as int),
@loop_decreases
    G.vertices@[u].spos - self.j
@loop 2
@invariant
    self.i == old(self).i,
    g0.gwf(), u == cur, 1 <= cur < g0.n_vert, s == g0.sh(), n == s.v[u].N, G.vertices@ == g0.vertices@, cur < G.vertices@.len(),
    self.states@.len() == 0, self.request_size == blen(n), s.v[u].spos < self.j <= n, G.vertices@[u].N == n,
    rooti(g0, *G, x, u, b, sw, self.j as int, self.clique_potential as int),
@loop_decreases
    n - self.j
@loop 3
@invariant
    self.i == old(self).i,
    u == cur, n == g0.sh().v[u].N, s == g0.sh(),
    base3(g0, *G, *self, u, b, sw, ids, cs, rg), covd(s, u, ids, cs, G.CUR_MAX_CLIQUE_SIZE as int),
@loop_ensures
    self.i == old(self).i,
    base3(g0, *G, *self, u, b, sw, ids, cs, rg), covd(s, u, ids, cs, G.CUR_MAX_CLIQUE_SIZE as int),
    ids.len() == 0 || G.CUR_MAX_CLIQUE_SIZE >= G.CLIQUE_LIMIT,
@loop_decreases
    meas(cs)
@loop 4
@invariant
    self.i == old(self).i,
    u == cur, n == g0.sh().v[u].N, s == g0.sh(), G.vertices@[u].N == n,
    base3(g0, *G, *self, u, b, sw, ids, cs, rg), covd(s, u, ids, cs, G.CUR_MAX_CLIQUE_SIZE as int),
@invariant_except_break
    meas(cs) <= meas0, top4(*self, cs, n, ix_cur_state),
@loop_ensures
    self.i == old(self).i,
    base3(g0, *G, *self, u, b, sw, ids, cs, rg), covd(s, u, ids, cs, G.CUR_MAX_CLIQUE_SIZE as int),
    self.j >= n ==> meas(cs) <= meas0 && top4(*self, cs, n, ix_cur_state), u < G.vertices@.len(), G.vertices@[u].N == n,
    self.j < n ==> meas(cs) < meas0,
@loop_decreases
    cs.last().len()
@loop 5
@invariant
    u == cur, n == g0.sh().v[u].N, s == g0.sh(), G.sh() == s, s.n() == G.vertices@.len(), G.vertices@[u].N == n, u < G.vertices@.len(), n <= 0x1_0000_0000,
    *self == (StackDFS { k: self.k, ans: self.ans, to_remove: self.to_remove, clique_potential: self.clique_potential, ..d5 }),
    ix_cur_state < self.states@.len(), self.states@[ix_cur_state as int].cand.wf(G.edge_bits), self.states@[ix_cur_state as int].cand.set_in(G.edge_bits) == c2,
    self.states@[ix_cur_state as int].cand.n() == n, self.candidates_left == c2.len(), self.candidates_left <= n, self.clique_size <= n,
    self.vert == s.nb(u, self.j as int), scan(s, u, c2, self.j as int, self.k as int, start as int, self.to_remove@),
    self.k < n ==> c2.contains(self.k as int),
    self.clique_potential == self.candidates_left - self.to_remove@.len() + self.clique_size + 1,
@loop_decreases
    n - self.k
@loop 6
@invariant
    it_k <= self.to_remove@.len(), future_state == fs, G.edge_bits.gen == g6.edge_bits.gen, *G == (graph { edge_bits: G.edge_bits, ..g6 }),
    same_outside(g6.edge_bits@, G.edge_bits@, fs.cand.lo(), fs.cand.hi()), fs.cand.wf(G.edge_bits),
    fs.cand.set_in(G.edge_bits) == minus(c2, self.to_remove@, it_k as int),
    forall|i: int| 0 <= i < self.to_remove@.len() ==> #[trigger] self.to_remove@[i] < fs.cand.n(),
@loop_decreases
    self.to_remove@.len() - it_k
@at begin
    let ghost g0 = *G; let ghost s = G.sh(); let ghost u = cur as int; let ghost n = s.v[u].N; let ghost b = G.search_cur as int;
    let ghost mut sw = true; let ghost mut ids = Seq::<int>::empty(); let ghost mut cs = Seq::<Set<int>>::empty(); let ghost mut rg = G.vertices@[u].bits;
    let ghost mut meas0 = 0nat; let ghost mut c2 = Set::<int>::empty(); let ghost mut d5 = *self; let ghost mut g5 = *G; let ghost mut g6 = *G;
    let ghost mut fs = arbitrary::<SearchState>(); let ghost mut k5 = 0int;
    proof { lemma_root(g0, u); }
@at loop 1 before
    proof {
        sw = x.res.lo() == b;
        lemma_root_init(g0, graph { search_cur: G.search_cur, ..g0 }, *G, x, u, b, sw);
    }
@at loop 1 begin
    let ghost ga = *G;
    proof { lemma_gs_zero(g0, *G, u); lemma_count_step(*G, u, self.j as int); }
@at loop 1 body_end
    proof {
        if s.rin(u, self.j as int) { lemma_root_set(g0, ga, *G, x, u, b, sw, self.j as int, self.clique_potential - 1); }
        else { lemma_root_skip(g0, *G, x, u, b, sw, self.j as int, self.clique_potential as int); }
    }
@at loop 1 after
    proof { lemma_root_skip(g0, *G, x, u, b, sw, self.j as int, self.clique_potential as int); }
@at loop 2 begin
    let ghost ga = *G;
    proof { lemma_gs_zero(g0, *G, u); lemma_count_step(*G, u, self.j as int); }
@at loop 2 body_end
    proof {
        if s.rin(u, self.j as int) { lemma_root_set(g0, ga, *G, x, u, b, sw, self.j as int, self.clique_potential - 1); }
        else { lemma_root_skip(g0, *G, x, u, b, sw, self.j as int, self.clique_potential as int); }
    }
@at loop 2 after
    let ghost gr = *G;
    proof {
        lemma_gs_zero(g0, *G, u); lemma_root(g0, u);
        assert forall|q: Set<int>| #[trigger] s.rclq(u, q) implies q.len() <= self.clique_potential by { lemma_root_small(s, u, q); }
    }
@at before /^\s*return;/
    proof {
        lemma_gs_mem(g0, gr, *G, u, b, b + 2 * blen(n));
        lemma_gs_end(g0, *G, *G, u);
    }
@at loop 3 before
    proof {
        rg = x.res; ids = seq![s.v[u].spos]; cs = seq![rset0(s, u, n)];
        lemma_start(s, u, G.CUR_MAX_CLIQUE_SIZE as int);
        lemma_stk_one(x, G.edge_bits, b, n, sw, s.v[u].spos, rset0(s, u, n));
        assert(self.states@ =~= seq![x]);
    }
@at loop 3 begin
    let ghost d3 = *self; let ghost g3 = *G;
    proof { lemma_top(self.states@, G.edge_bits, b, n, sw, ids, cs, rg); lemma_gs_zero(g0, *G, u); lemma_root(g0, u); meas0 = meas(cs); }
@at loop 4 before
    proof {
        let t = ids.len() - 1;
        lemma_next_set(d3.states@[t].cand, G.edge_bits, d3.states@[t].start_at as int, self.j as int);
        lemma_gs_mem(g0, g3, *G, u, b, b);
        lemma_stk_top(d3.states@, self.states@, g3.edge_bits, G.edge_bits, b, n, sw, ids, cs, cs.last(), rg);
        assert(cs.update(cs.len() - 1, cs.last()) =~= cs);
    }
@at loop 4 begin
    let ghost d4 = *self; let ghost g4 = *G; let ghost cs0 = cs;
    proof {
        lemma_top(self.states@, G.edge_bits, b, n, sw, ids, cs, rg); lemma_gs_zero(g0, *G, u); lemma_root(g0, u);
        lemma_remove_top(s, u, ids, cs, self.j as int);
        lemma_ids_len(s, u, ids);
        lemma_push_ids(s, u, ids, self.j as int);
        lemma_ids_len(s, u, ids.push(self.j as int));
        c2 = cs.last().remove(self.j as int);
        assert(0 <= s.nb(u, self.j as int) < s.n());
        assert(s.v[s.nb(u, self.j as int)] == vsh(g0.vertices@[s.nb(u, self.j as int)]));
    }
@at loop 5 before
    proof {
        let t = ids.len() - 1;
        let c = d4.states@[t].cand;
        assert forall|k: int| #[trigger] c2.contains(k) implies k >= d4.j + 1 by { assert(cs.last().contains(k)); }
        lemma_next_set(c, G.edge_bits, d4.j + 1, self.k as int);
        lemma_gs_mem(g0, g4, *G, u, c.lo(), c.hi());
        lemma_stk_top(d4.states@, self.states@, g4.edge_bits, G.edge_bits, b, n, sw, ids, cs, c2, rg);
        lemma_scan_start(s, u, c2, self.j as int, self.k as int);
        lemma_meas_push(cs, c2, c2);
        d5 = *self; g5 = *G;
        assert(self.to_remove@ =~= Seq::<u64>::empty());
        cs = cs0.update(cs0.len() - 1, c2);
    }
@at loop 5 begin
    let ghost d6 = *self; let ghost st6 = start;
    proof { lemma_scan_pre(*G, s, u, c2, self.j as int, self.k as int, start as int, self.to_remove@); k5 = self.k as int; }
@at loop 5 end
    proof {
        let c = self.states@[ix_cur_state as int].cand;
        assert forall|x: int| #[trigger] c2.contains(x) implies x <= k5 || x >= self.k by { assert(bat(G.edge_bits@, c.lo(), x)); }
        lemma_scan_step(*G, s, u, c2, self.j as int, k5, st6 as int, d6.to_remove@, self.ans as int, self.k as int, self.to_remove@);
    }
@at loop 5 after
    proof {
        lemma_top(self.states@, G.edge_bits, b, n, sw, ids, cs, rg); lemma_gs_zero(g0, *G, u); lemma_root(g0, u);
        if self.clique_potential <= G.CUR_MAX_CLIQUE_SIZE {
            lemma_drop(s, u, ids, cs0, self.j as int, self.k as int, G.CUR_MAX_CLIQUE_SIZE as int);
        } else if self.candidates_left == 0 {
            lemma_record(s, u, ids, cs0, self.j as int, G.CUR_MAX_CLIQUE_SIZE as int);
            assert(ids.to_set().insert(self.j as int).remove(self.j as int) =~= ids.to_set());
            lemma_len_subset(far(s, u, c2, self.j as int, self.k as int), c2);
        } else {
            lemma_deeper(s, u, ids, cs0, self.j as int, self.k as int, G.CUR_MAX_CLIQUE_SIZE as int);
            lemma_more(blen(n), ids.len() as int, s.rcount(u, n));
        }
    }
@at after /\.res\.set\(self\.j, /
    let ghost ga = *G;
    proof { lemma_gs_mem(g0, g5, *G, u, rg.lo(), rg.hi()); lemma_gs_zero(g0, *G, u); }
@at before /\.res\.reset\(self\.j, /
    let ghost gb = *G;
    proof {
        lemma_gs_record(g0, ga, *G, u, ids.to_set().insert(self.j as int));
        lemma_frame(ga.edge_bits, gb.edge_bits, rg, G.vertices@[u].bits.lo(), G.vertices@[u].bits.hi());
    }
@at after /\.res\.reset\(self\.j, /
    proof {
        lemma_gs_zero(g0, gb, u);
        lemma_gs_mem(g0, gb, *G, u, rg.lo(), rg.hi());
        lemma_stk_keep(self.states@, g5.edge_bits, G.edge_bits, b, n, sw, ids, cs, rg, G.vertices@[u].bits.lo(), G.vertices@[u].bits.hi());
    }
@at loop 6 before
    proof {
        g6 = *G; fs = future_state;
        lemma_minus(c2, self.to_remove@, 0);
        assert forall|i: int| 0 <= i < self.to_remove@.len() implies #[trigger] self.to_remove@[i] < fs.cand.n() by {
            assert(far(s, u, c2, self.j as int, self.k as int).contains(self.to_remove@[i] as int));
        }
    }
@at loop 6 begin
    proof { lemma_minus(c2, self.to_remove@, it_k as int); }
@at loop 6 after
    let ghost sts1 = self.states@;
    proof {
        lemma_minus_far(s, u, c2, self.j as int, self.k as int, start as int, self.to_remove@);
        lemma_frame(g6.edge_bits, G.edge_bits, rg, fs.cand.lo(), fs.cand.hi());
        let d = minus(c2, self.to_remove@, self.to_remove@.len() as int);
        lemma_stk_push(sts1, future_state, g5.edge_bits, G.edge_bits, b, n, sw, ids, cs, d, rg);
        lemma_gs_mem(g0, g5, *G, u, b, G.search_cur as int);
        lemma_meas_push(cs0, c2, d);
        ids = ids.push(self.j as int); cs = cs.push(d);
    }
@at loop 4 after
    let ghost g7 = *G; let ghost d7 = *self;
    proof {
        lemma_gs_zero(g0, *G, u); lemma_root(g0, u);
        if self.j >= n {
            lemma_top(self.states@, G.edge_bits, b, n, sw, ids, cs, rg);
            lemma_up(s, u, ids, cs, G.CUR_MAX_CLIQUE_SIZE as int);
            lemma_ids_len(s, u, ids);
            lemma_total(blen(n), ids.len() as int, s.rcount(u, n));
            assert(ids.to_set().contains(ids.last()));
        }
    }
@at before /self\.clique_size\.wrapping_sub/
    let ghost g8 = *G;
    proof { lemma_gs_mem(g0, g7, *G, u, rg.lo(), rg.hi()); lemma_gs_zero(g0, *G, u); }
@at after /G\.clear_memory\(self\.request_size\)/ 1
    proof {
        lemma_slots(blen(n), ids.len() - 1, ids.len() as int);
        lemma_stk_pop(d7.states@, g7.edge_bits, g8.edge_bits, G.edge_bits, b, n, sw, ids, cs, rg);
        lemma_gs_mem(g0, g8, *G, u, b + ids.len() * blen(n), b + (ids.len() + 1) * blen(n));
        ids = ids.drop_last(); cs = cs.drop_last();
    }
@at loop 3 after
    let ghost g9 = *G;
    proof {
        lemma_gs_zero(g0, *G, u); lemma_root(g0, u);
        if ids.len() == 0 { lemma_covd_end(s, u, ids, cs, G.CUR_MAX_CLIQUE_SIZE as int); } else {
            lemma_ids_len(s, u, ids);
            lemma_total(blen(n), ids.len() as int, s.rcount(u, n));
        }
    }
@at end
    proof {
        let gz = graph { vertices: g9.vertices, ..*G };
        lemma_gs_mem(g0, g9, gz, u, b, g9.search_cur as int);
        lemma_gs_end(g0, gz, *G, u);
    }

@lib
proof fn lemma_total(bb: int, l: int, rc: int)
    requires bb >= 1, 0 <= l <= rc,
    ensures bb * l + bb == (l + 1) * bb, 0 <= bb * l <= 2 * (rc + 1) * bb, bb <= (l + 1) * bb <= 2 * (rc + 1) * bb,
{
    assert(bb * l + bb == (l + 1) * bb && 0 <= bb * l <= 2 * (rc + 1) * bb && bb <= (l + 1) * bb <= 2 * (rc + 1) * bb) by(nonlinear_arith) requires bb >= 1, 0 <= l <= rc;
}

@fn StackDFS::process_graph(G)
@requires
    old(G).gwf(), old(G).n_vert >= 2, old(G).search_cur == old(G).search_start, old(G).CUR_MAX_CLIQUE_SIZE >= 1, old(self).states@.len() == 0,
@ensures
    final(G).gwf(), r == final(G).n_vert, searched_all(*old(G), *final(G)),
    final(G).CUR_MAX_CLIQUE_SIZE >= final(G).CLIQUE_LIMIT || done(*final(G), final(G).n_vert as int),
@loop 1
@invariant
    G.gwf(), G.n_vert >= 2, searched_all(*old(G), *G), self.i <= G.n_vert, self.states@.len() == 0, old(G).search_cur == old(G).search_start, old(G).CUR_MAX_CLIQUE_SIZE >= 1,
    G.CUR_MAX_CLIQUE_SIZE >= G.CLIQUE_LIMIT || done(*G, self.i as int),
@loop_decreases
    G.n_vert - self.i
@at begin
    proof { lemma_root(*G, 1); lemma_all_start(*G); }
@at loop 1 before
    proof { lemma_all_step(*old(G), *old(G), *G, old(G).CUR_MAX_CLIQUE_LOCATION as int); }
@at loop 1 begin
    let ghost ga = *G;
    proof { lemma_root(*G, 1); assert(G.vmcs(self.i as int)); }
@at loop 1 body_end
    proof { if ga != *G { lemma_all_step(*old(G), ga, *G, self.i as int); } }
