@lib
pub open spec fn base3(g0: nwgraph, g: nwgraph, d: NWStackDFS, u: int, b: int, sw: bool, ids: Seq<int>, cs: Seq<Set<int>>, rg: graphBits) -> bool {
    let s = g0.sh(); let n = s.v[u].N;
    &&& gsrch(g0, g, u) && stk(d.states@, g.edge_bits, b, n, sw, ids, cs, rg) && ids_ok(s, u, ids) && cs_ok(s, u, ids, cs) && sep(ids, cs)
    &&& d.request_size == blen(n) && g.search_cur == b + (ids.len() + 1) * blen(n)
    &&& ids.len() > 0 ==> d.clique_weight@ == wof(s, u, ids.to_set())
    &&& b == g0.search_cur && b == g0.search_start && d.states@.len() == ids.len() && ids.len() == cs.len()
    &&& g.vertices@ == g0.vertices@ && g.edge_list@ == g0.edge_list@ && u < g.vertices@.len()
    &&& g.CLIQUE_LIMIT == g0.CLIQUE_LIMIT && noted(s, u, d.weights@, n) && wcov(s, u, ids, cs, g.CUR_MAX_CLIQUE_SIZE@)
}
pub open spec fn top4(d: NWStackDFS, cs: Seq<Set<int>>, n: int, ix: u64) -> bool {
    &&& d.states@.len() == cs.len() && cs.len() > 0 && ix == cs.len() - 1
    &&& d.j == d.states@[ix as int].start_at && d.j <= n && (d.j < n ==> cs.last().contains(d.j as int)) && (d.j >= n ==> cs.last().len() == 0)
}
// the scan for neighbours of j among the candidates c: those found weigh p
pub open spec fn wscan(s: Sh, u: int, c: Set<int>, j: int, k: int, tr: Seq<u64>, p: real) -> bool {
    let seen = c.filter(|x: int| x < k);
    &&& scan(s, u, c, j, k, s.v[s.nb(u, j)].spos, tr)
    &&& p == wof(s, u, seen.difference(far(s, u, c, j, k)))
}
proof fn lemma_wscan_start(s: Sh, u: int, c: Set<int>, j: int, k: int)
    requires s.ok(), 0 <= u < s.n(), 0 <= j < s.v[u].N, j < k <= s.v[u].N, forall|x: int| #[trigger] c.contains(x) ==> k <= x < s.v[u].N,
    ensures wscan(s, u, c, j, k, Seq::empty(), 0real), 0 <= s.nb(u, j) < s.n(),
{
    lemma_scan_start(s, u, c, j, k);
    let d = c.filter(|x: int| x < k).difference(far(s, u, c, j, k));
    assert(d =~= Set::empty());
    lemma_w_empty(s, u, d, s.v[u].N);
}
proof fn lemma_wscan_step(g: nwgraph, s: Sh, u: int, c: Set<int>, j: int, k: int, tr: Seq<u64>, p: real, k2: int, tr2: Seq<u64>)
    requires s == g.sh(), wscan(s, u, c, j, k, tr, p), k < s.v[u].N, k < k2 <= s.v[u].N, k <= u64::MAX, c.contains(k),
        forall|x: int| #[trigger] c.contains(x) ==> x <= k || x >= k2,
        tr2 == (if s.adj(s.nb(u, j), s.nb(u, k)) { tr } else { tr.push(k as u64) }),
    ensures wscan(s, u, c, j, k2, tr2, if s.adj(s.nb(u, j), s.nb(u, k)) { p + wt(s, u, k) } else { p }), tr2.len() <= c.len(),
{
    lemma_scan_step(g, s, u, c, j, k, s.v[s.nb(u, j)].spos, tr, 0, k2, tr2);
    lemma_far_step(s, u, c, j, k, k2);
    let d = c.filter(|x: int| x < k).difference(far(s, u, c, j, k));
    let d2 = c.filter(|x: int| x < k2).difference(far(s, u, c, j, k2));
    if s.adj(s.nb(u, j), s.nb(u, k)) {
        assert(d2 =~= d.insert(k));
        lemma_w_insert(s, u, d, k, s.v[u].N);
    } else { assert(d2 =~= d); }
}
// the scan is over, at the end of the list or because no candidate is left
proof fn lemma_wscan_end(s: Sh, u: int, cs: Seq<Set<int>>, j: int, k: int, tr: Seq<u64>, p: real)
    requires s.ok(), 0 <= u < s.n(), cs.len() > 0, wscan(s, u, cs.last().remove(j), j, k, tr, p), k >= s.v[u].N || tr.len() >= cs.last().remove(j).len(),
    ensures p == wof(s, u, near(s, u, cs, j, s.v[u].N)), minus(cs.last().remove(j), tr, tr.len() as int) =~= near(s, u, cs, j, s.v[u].N),
        near(s, u, cs, j, s.v[u].N).len() == cs.last().remove(j).len() - tr.len(),
{
    let c = cs.last().remove(j); let n = s.v[u].N;
    let f = far(s, u, c, j, k); let d = c.filter(|x: int| x < k).difference(f);
    lemma_minus_far(s, u, c, j, k, s.v[s.nb(u, j)].spos, tr);
    if k < n { lemma_far_all(s, u, c, j, k); lemma_len_subset(f, c); lemma_subset_equality(f, c); assert(f =~= c); }
    assert(d =~= near(s, u, cs, j, n));
    lemma_len_subset(f, c);
    vstd::set_lib::lemma_set_disjoint_lens(f, c.difference(f));
    assert(f.union(c.difference(f)) =~= c);
    assert(near(s, u, cs, j, n) =~= c.difference(f));
}
// room for one more state
proof fn lemma_more(bb: int, l: int, rc: int)
    requires bb >= 1, 0 <= l < rc,
    ensures (l + 1) * bb + bb == (l + 2) * bb, (l + 2) * bb <= 2 * (rc + 1) * bb, (l + 1) * bb < 2 * (rc + 1) * bb,
{
    assert((l + 1) * bb + bb == (l + 2) * bb && (l + 2) * bb <= 2 * (rc + 1) * bb) by(nonlinear_arith) requires bb >= 1, 0 <= l < rc;
}
proof fn lemma_total(bb: int, l: int, rc: int)
    requires bb >= 1, 0 <= l <= rc,
    ensures bb * l + bb == (l + 1) * bb, 0 <= bb * l <= 2 * (rc + 1) * bb, bb <= (l + 1) * bb <= 2 * (rc + 1) * bb,
{
    assert(bb * l + bb == (l + 1) * bb && 0 <= bb * l <= 2 * (rc + 1) * bb && bb <= (l + 1) * bb <= 2 * (rc + 1) * bb) by(nonlinear_arith) requires bb >= 1, 0 <= l <= rc;
}

@fn NWStackDFS::process_vertex(G, cur)
@locals NWSearchState x, NWSearchState cur_state, NWSearchState future_state, f64 cand_potential
@requires
    old(G).gwf(), 1 <= cur < old(G).n_vert, old(G).search_cur == old(G).search_start, old(self).states@.len() == 0, old(self).weights@.len() >= old(G).max_neighbors,
@ensures
    final(G).gwf(), searched(*old(G), *final(G), cur as int), final(self).states@.len() == 0, final(self).i == old(self).i, final(self).weights@.len() == old(self).weights@.len(),
    final(G).CUR_MAX_CLIQUE_SIZE@ >= final(G).CLIQUE_LIMIT@
        || (wpos(old(G).sh()) ==> forall|q: Set<int>| #[trigger] old(G).sh().rclq(cur as int, q) ==> wof(old(G).sh(), cur as int, q) <= final(G).CUR_MAX_CLIQUE_SIZE@),
@loop 1
@invariant
    self.i == old(self).i, self.weights@.len() == wl, noted(s, u, self.weights@, self.j as int),
    g0.gwf(), u == cur, 1 <= cur < g0.n_vert, s == g0.sh(), n == s.v[u].N, G.vertices@ == g0.vertices@, cur < G.vertices@.len(),
    self.states@.len() == 0, self.request_size == blen(n), self.j <= G.vertices@[u].spos < n, G.vertices@[u].N == n,
    rooti(g0, *G, x, u, b, sw, self.j as int, self.clique_potential@),
@loop_decreases
    G.vertices@[u].spos - self.j
@loop 2
@invariant
    self.i == old(self).i, self.weights@.len() == wl, noted(s, u, self.weights@, self.j as int),
    g0.gwf(), u == cur, 1 <= cur < g0.n_vert, s == g0.sh(), n == s.v[u].N, G.vertices@ == g0.vertices@, cur < G.vertices@.len(),
    self.states@.len() == 0, self.request_size == blen(n), s.v[u].spos < self.j <= n, G.vertices@[u].N == n,
    rooti(g0, *G, x, u, b, sw, self.j as int, self.clique_potential@),
@loop_decreases
    n - self.j
@loop 3
@invariant
    self.i == old(self).i, self.weights@.len() == wl,
    u == cur, n == g0.sh().v[u].N, s == g0.sh(),
    base3(g0, *G, *self, u, b, sw, ids, cs, rg),
@loop_ensures
    self.i == old(self).i, self.weights@.len() == wl,
    base3(g0, *G, *self, u, b, sw, ids, cs, rg),
    ids.len() == 0 || G.CUR_MAX_CLIQUE_SIZE@ >= G.CLIQUE_LIMIT@,
@loop_decreases
    meas(cs)
@loop 4
@invariant
    self.i == old(self).i, self.weights@.len() == wl,
    u == cur, n == g0.sh().v[u].N, s == g0.sh(), G.vertices@[u].N == n,
    base3(g0, *G, *self, u, b, sw, ids, cs, rg),
@invariant_except_break
    meas(cs) <= meas0, top4(*self, cs, n, ix_cur_state),
@loop_ensures
    self.i == old(self).i, self.weights@.len() == wl,
    base3(g0, *G, *self, u, b, sw, ids, cs, rg),
    self.j >= n ==> meas(cs) <= meas0 && top4(*self, cs, n, ix_cur_state), u < G.vertices@.len(), G.vertices@[u].N == n,
    self.j < n ==> meas(cs) < meas0,
@loop_decreases
    cs.last().len()
@loop 5
@invariant
    u == cur, n == g0.sh().v[u].N, s == g0.sh(), G.sh() == s, s.n() == G.vertices@.len(), G.vertices@[u].N == n, u < G.vertices@.len(), n <= 0x1_0000_0000,
    *self == (NWStackDFS { k: self.k, ans: self.ans, to_remove: self.to_remove, candidates_left: self.candidates_left, ..d5 }), noted(s, u, self.weights@, n),
    ix_cur_state < self.states@.len(), self.states@[ix_cur_state as int].cand.wf(G.edge_bits), self.states@[ix_cur_state as int].cand.set_in(G.edge_bits) == c2,
    self.states@[ix_cur_state as int].cand.n() == n, self.candidates_left == c2.len() - self.to_remove@.len(), c2.len() <= n,
    self.vert == s.nb(u, self.j as int), wscan(s, u, c2, self.j as int, self.k as int, self.to_remove@, cand_potential@),
    self.k < n ==> c2.contains(self.k as int), forall|x: int| #[trigger] c2.contains(x) ==> rset0(s, u, n).contains(x),
@loop_decreases
    n - self.k
@loop 6
@invariant
    it_k <= self.to_remove@.len(), future_state == fs, G.edge_bits.gen == g6.edge_bits.gen, *G == (nwgraph { edge_bits: G.edge_bits, ..g6 }),
    same_outside(g6.edge_bits@, G.edge_bits@, fs.cand.lo(), fs.cand.hi()), fs.cand.wf(G.edge_bits),
    fs.cand.set_in(G.edge_bits) == minus(c2, self.to_remove@, it_k as int),
    forall|i: int| 0 <= i < self.to_remove@.len() ==> #[trigger] self.to_remove@[i] < fs.cand.n(),
@loop_decreases
    self.to_remove@.len() - it_k
@at begin
    let ghost g0 = *G; let ghost s = G.sh(); let ghost u = cur as int; let ghost n = s.v[u].N; let ghost b = G.search_cur as int; let ghost wl = self.weights@.len();
    let ghost mut sw = true; let ghost mut ids = Seq::<int>::empty(); let ghost mut cs = Seq::<Set<int>>::empty(); let ghost mut rg = G.vertices@[u].bits;
    let ghost mut meas0 = 0nat; let ghost mut c2 = Set::<int>::empty(); let ghost mut d5 = *self; let ghost mut g5 = *G; let ghost mut g6 = *G;
    let ghost mut fs = arbitrary::<NWSearchState>(); let ghost mut k5 = 0int;
    proof { lemma_root(g0, u); lemma_rset0(s, u, 0); }
@at loop 1 before
    proof {
        sw = x.res.lo() == b;
        lemma_root_init(g0, nwgraph { search_cur: G.search_cur, ..g0 }, *G, x, u, b, sw);
    }
@at loop 1 begin
    let ghost ga = *G; let ghost da = *self;
    proof { lemma_gs_zero(g0, *G, u); lemma_count_step(*G, u, self.j as int); }
@at loop 1 body_end
    proof {
        if s.rin(u, self.j as int) { lemma_root_set(g0, ga, *G, x, u, b, sw, self.j as int, da.clique_potential@); }
        else { lemma_root_skip(g0, *G, x, u, b, sw, self.j as int, self.clique_potential@); }
        lemma_noted(s, u, da.weights@, self.weights@, self.j as int);
    }
@at loop 1 after
    proof { lemma_root_skip(g0, *G, x, u, b, sw, self.j as int, self.clique_potential@); lemma_noted(s, u, self.weights@, self.weights@, self.j as int); }
@at loop 2 begin
    let ghost ga = *G; let ghost da = *self;
    proof { lemma_gs_zero(g0, *G, u); lemma_count_step(*G, u, self.j as int); }
@at loop 2 body_end
    proof {
        if s.rin(u, self.j as int) { lemma_root_set(g0, ga, *G, x, u, b, sw, self.j as int, da.clique_potential@); }
        else { lemma_root_skip(g0, *G, x, u, b, sw, self.j as int, self.clique_potential@); }
        lemma_noted(s, u, da.weights@, self.weights@, self.j as int);
    }
@at loop 2 after
    let ghost gr = *G;
    proof {
        lemma_gs_zero(g0, *G, u); lemma_root(g0, u); lemma_w_root(s, u);
        if wpos(s) {
            assert forall|q: Set<int>| #[trigger] s.rclq(u, q) implies wof(s, u, q) <= self.clique_potential@ + G.vertices@[u].weight@ by { lemma_w_most(s, u, q); }
        }
    }
@at before /^\s*return;/
    proof {
        lemma_gs_mem(g0, gr, *G, u, b, b + 2 * blen(n));
        lemma_gs_end(g0, *G, *G, u);
    }
@at loop 3 before
    proof {
        let p = set![s.v[u].spos];
        if rset0(s, u, n).len() == 0 {
            assert(rset0(s, u, n) =~= Set::empty()); assert(G.store_of(u) =~= p);
            lemma_w_empty(s, u, rset0(s, u, n), n);
            lemma_start(s, u, 1);
            lemma_ids_len(s, u, seq![s.v[u].spos]);
            lemma_gs_record(g0, gr, *G, u, p);
            lemma_frame(gr.edge_bits, G.edge_bits, x.res, G.vertices@[u].bits.lo(), G.vertices@[u].bits.hi());
            lemma_frame(gr.edge_bits, G.edge_bits, x.cand, G.vertices@[u].bits.lo(), G.vertices@[u].bits.hi());
        } else { lemma_gs_mem(g0, gr, *G, u, b, b); }
        rg = x.res; ids = seq![s.v[u].spos]; cs = seq![rset0(s, u, n)];
        lemma_w_start(s, u, G.CUR_MAX_CLIQUE_SIZE@);
        lemma_stk_one(self.states@[0], G.edge_bits, b, n, sw, s.v[u].spos, rset0(s, u, n));
        assert(self.states@ =~= seq![self.states@[0]]);
        assert(ids.len() == 1 && cs.len() == 1);
        assert((ids.len() + 1) * blen(n) == 2 * blen(n));
    }
@at loop 3 begin
    let ghost d3 = *self; let ghost g3 = *G;
    proof { lemma_top(self.states@, G.edge_bits, b, n, sw, ids, cs, rg); lemma_gs_zero(g0, *G, u); lemma_root(g0, u); meas0 = meas(cs); }
@at loop 4 before
    proof {
        let t = ids.len() - 1;
        lemma_next_set(d3.states@[t].cand, G.edge_bits, d3.states@[t].start_at as int, self.j as int);
        lemma_gs_mem(g0, g3, *G, u, b, b);
        lemma_stk_top(d3.states@, self.states@, g3.edge_bits, G.edge_bits, b, n, sw, ids, cs, cs.last(), rg);
        assert(cs.update(cs.len() - 1, cs.last()) =~= cs);
    }
@at loop 4 begin
    let ghost d4 = *self; let ghost g4 = *G; let ghost cs0 = cs;
    proof {
        lemma_top(self.states@, G.edge_bits, b, n, sw, ids, cs, rg); lemma_gs_zero(g0, *G, u); lemma_root(g0, u);
        lemma_p_cut(s, u, ids, cs, self.j as int, n);
        lemma_remove_top(s, u, ids, cs, self.j as int);
        lemma_push_ids(s, u, ids, self.j as int);
        lemma_depth_ok(g0, u, ids.push(self.j as int));
        lemma_cand_in(s, u, ids, cs);
        c2 = cs.last().remove(self.j as int);
        assert(0 <= s.nb(u, self.j as int) < s.n());
        assert(s.v[s.nb(u, self.j as int)] == vsh(g0.vertices@[s.nb(u, self.j as int)]));
    }
@at loop 5 before
    proof {
        let t = ids.len() - 1;
        let c = d4.states@[t].cand;
        assert forall|k: int| #[trigger] c2.contains(k) implies k >= d4.j + 1 by { assert(cs.last().contains(k)); }
        lemma_next_set(c, G.edge_bits, d4.j + 1, self.k as int);
        lemma_gs_mem(g0, g4, *G, u, c.lo(), c.hi());
        lemma_stk_top(d4.states@, self.states@, g4.edge_bits, G.edge_bits, b, n, sw, ids, cs, c2, rg);
        lemma_wscan_start(s, u, c2, self.j as int, self.k as int);
        lemma_meas_push(cs, c2, c2);
        d5 = *self; g5 = *G;
        assert(self.to_remove@ =~= Seq::<u64>::empty());
        cs = cs0.update(cs0.len() - 1, c2);
    }
@at loop 5 begin
    let ghost d6 = *self; let ghost p6 = cand_potential@;
    proof { lemma_scan_pre(*G, s, u, c2, self.j as int, self.k as int, s.v[s.nb(u, self.j as int)].spos, self.to_remove@); k5 = self.k as int; }
@at loop 5 end
    proof {
        let c = self.states@[ix_cur_state as int].cand;
        assert forall|x: int| #[trigger] c2.contains(x) implies x <= k5 || x >= self.k by { assert(bat(G.edge_bits@, c.lo(), x)); }
        lemma_wscan_step(*G, s, u, c2, self.j as int, k5, d6.to_remove@, p6, self.k as int, self.to_remove@);
    }
@at loop 5 after
    proof {
        lemma_top(self.states@, G.edge_bits, b, n, sw, ids, cs, rg); lemma_gs_zero(g0, *G, u); lemma_root(g0, u);
        lemma_wscan_end(s, u, cs0, self.j as int, self.k as int, self.to_remove@, cand_potential@);
        lemma_w_insert(s, u, ids.to_set(), self.j as int, n);
        if near(s, u, cs0, self.j as int, n).len() == 0 { lemma_w_empty(s, u, near(s, u, cs0, self.j as int, n), n); }
        let m = wof(s, u, ids.to_set()) + wt(s, u, self.j as int) + wof(s, u, near(s, u, cs0, self.j as int, n));
        if m <= G.CUR_MAX_CLIQUE_SIZE@ {
            lemma_w_less(s, u, ids, cs0, self.j as int, n, G.CUR_MAX_CLIQUE_SIZE@, G.CUR_MAX_CLIQUE_SIZE@);
        } else if near(s, u, cs0, self.j as int, n).len() == 0 {
            lemma_w_less(s, u, ids, cs0, self.j as int, n, G.CUR_MAX_CLIQUE_SIZE@, m);
            assert(ids.to_set().insert(self.j as int).remove(self.j as int) =~= ids.to_set());
        } else {
            lemma_w_deeper(s, u, ids, cs0, self.j as int, n, G.CUR_MAX_CLIQUE_SIZE@);
            lemma_more(blen(n), ids.len() as int, g0.max_depth as int);
        }
    }
@at after /\.res\.set\(self\.j, /
    let ghost ga = *G;
    proof { lemma_gs_mem(g0, g5, *G, u, rg.lo(), rg.hi()); lemma_gs_zero(g0, *G, u); }
@at before /\.res\.reset\(self\.j, /
    let ghost gb = *G;
    proof {
        lemma_gs_record(g0, ga, *G, u, ids.to_set().insert(self.j as int));
        lemma_frame(ga.edge_bits, gb.edge_bits, rg, G.vertices@[u].bits.lo(), G.vertices@[u].bits.hi());
    }
@at after /\.res\.reset\(self\.j, /
    proof {
        lemma_gs_zero(g0, gb, u);
        lemma_gs_mem(g0, gb, *G, u, rg.lo(), rg.hi());
        lemma_stk_keep(self.states@, g5.edge_bits, G.edge_bits, b, n, sw, ids, cs, rg, G.vertices@[u].bits.lo(), G.vertices@[u].bits.hi());
    }
@at loop 6 before
    proof {
        g6 = *G; fs = future_state;
        lemma_minus(c2, self.to_remove@, 0);
        assert forall|i: int| 0 <= i < self.to_remove@.len() implies #[trigger] self.to_remove@[i] < fs.cand.n() by {
            assert(far(s, u, c2, self.j as int, self.k as int).contains(self.to_remove@[i] as int));
        }
    }
@at loop 6 begin
    proof { lemma_minus(c2, self.to_remove@, it_k as int); }
@at loop 6 after
    let ghost sts1 = self.states@;
    proof {
        lemma_frame(g6.edge_bits, G.edge_bits, rg, fs.cand.lo(), fs.cand.hi());
        let d = minus(c2, self.to_remove@, self.to_remove@.len() as int);
        lemma_stk_push(sts1, future_state, g5.edge_bits, G.edge_bits, b, n, sw, ids, cs, d, rg);
        lemma_gs_mem(g0, g5, *G, u, b, G.search_cur as int);
        lemma_meas_push(cs0, c2, d);
        ids = ids.push(self.j as int); cs = cs.push(d);
    }
@at loop 4 after
    let ghost g7 = *G; let ghost d7 = *self;
    proof {
        lemma_gs_zero(g0, *G, u); lemma_root(g0, u);
        if self.j >= n {
            lemma_top(self.states@, G.edge_bits, b, n, sw, ids, cs, rg);
            lemma_w_up(s, u, ids, cs, G.CUR_MAX_CLIQUE_SIZE@);
            lemma_depth_ok(g0, u, ids);
            lemma_total(blen(n), ids.len() as int, g0.max_depth as int);
            assert(ids.to_set().contains(ids.last()));
        }
    }
@at before /self\.clique_weight = dbl_sub/
    let ghost g8 = *G;
    proof { lemma_gs_mem(g0, g7, *G, u, rg.lo(), rg.hi()); lemma_gs_zero(g0, *G, u); }
@at after /G\.clear_memory\(self\.request_size\)/ 1
    proof {
        lemma_slots(blen(n), ids.len() - 1, ids.len() as int);
        lemma_stk_pop(d7.states@, g7.edge_bits, g8.edge_bits, G.edge_bits, b, n, sw, ids, cs, rg);
        lemma_gs_mem(g0, g8, *G, u, b + ids.len() * blen(n), b + (ids.len() + 1) * blen(n));
        if ids.len() > 1 { assert(rset0(s, u, n).contains(ids.last())); }
        ids = ids.drop_last(); cs = cs.drop_last();
    }
@at loop 3 after
    let ghost g9 = *G;
    proof {
        lemma_gs_zero(g0, *G, u); lemma_root(g0, u);
        if ids.len() == 0 { if wpos(s) { lemma_w_end(s, u, ids, cs, G.CUR_MAX_CLIQUE_SIZE@); } } else {
            lemma_depth_ok(g0, u, ids);
            lemma_total(blen(n), ids.len() as int, g0.max_depth as int);
        }
    }
@at end
    proof {
        let gz = nwgraph { vertices: g9.vertices, ..*G };
        lemma_gs_mem(g0, g9, gz, u, b, g9.search_cur as int);
        lemma_gs_end(g0, gz, *G, u);
    }

@fn NWStackDFS::process_graph(G)
@requires
    old(G).gwf(), old(G).n_vert >= 2, old(G).search_cur == old(G).search_start, old(self).states@.len() == 0,
@ensures
    final(G).gwf(), r == final(G).n_vert, searched_all(*old(G), *final(G)),
    final(G).CUR_MAX_CLIQUE_SIZE@ >= final(G).CLIQUE_LIMIT@ || done(*final(G), final(G).n_vert as int),
@loop 1
@invariant
    G.gwf(), G.n_vert >= 2, searched_all(*old(G), *G), 1 <= self.i <= G.n_vert, self.states@.len() == 0, old(G).search_cur == old(G).search_start, self.weights@.len() >= G.max_neighbors,
    G.CUR_MAX_CLIQUE_SIZE@ >= G.CLIQUE_LIMIT@ || done(*G, self.i as int),
@loop_decreases
    G.n_vert - self.i
@at begin
    proof { lemma_root(*G, 1); lemma_all_start(*G); }
@at loop 1 before
    proof { lemma_all_step(*old(G), *old(G), *G, old(G).CUR_MAX_CLIQUE_LOCATION as int); }
@at loop 1 begin
    let ghost ga = *G;
    proof { lemma_root(*G, 1); assert(G.vmcs(self.i as int)); }
@at loop 1 body_end
    proof { if ga != *G { lemma_all_step(*old(G), ga, *G, self.i as int); } }
