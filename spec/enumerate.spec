@lib
// Enumeration of the cliques of R vertices below a root u: what the stack (ids, cs) still stands for.
pub open spec fn wanted(s: Sh, r: int, u: int, q: Set<int>) -> bool { 1 <= u < s.n() && s.rclq(u, q) && q.len() == r }
#[verifier::opaque]
pub open spec fn same_pend(s: Sh, r: int, u: int, ids: Seq<int>, cs: Seq<Set<int>>, ids2: Seq<int>, cs2: Seq<Set<int>>) -> bool {
    forall|q: Set<int>| #[trigger] wanted(s, r, u, q) ==> pend(ids, cs, q) == pend(ids2, cs2, q)
}
// still to be reported
pub open spec fn etodo(s: Sh, r: int, cur: int, ids: Seq<int>, cs: Seq<Set<int>>, u: int, q: Set<int>) -> bool {
    wanted(s, r, u, q) && (u > cur || (u == cur && pend(ids, cs, q)))
}
#[verifier::opaque]
pub open spec fn same_todo(s: Sh, r: int, c1: int, ids1: Seq<int>, cs1: Seq<Set<int>>, c2: int, ids2: Seq<int>, cs2: Seq<Set<int>>) -> bool {
    forall|u: int, q: Set<int>| #[trigger] wanted(s, r, u, q) ==> etodo(s, r, c1, ids1, cs1, u, q) == etodo(s, r, c2, ids2, cs2, u, q)
}
// nothing is wanted strictly between u and u2; all that is wanted below u is pending
#[verifier::opaque]
pub open spec fn skipped(s: Sh, r: int, u: int, u2: int) -> bool { forall|w: int, q: Set<int>| u < w < u2 ==> !#[trigger] wanted(s, r, w, q) }
#[verifier::opaque]
pub open spec fn opened(s: Sh, r: int, u: int, ids: Seq<int>, cs: Seq<Set<int>>) -> bool { forall|q: Set<int>| #[trigger] wanted(s, r, u, q) ==> pend(ids, cs, q) }
pub proof fn lemma_e_drop(s: Sh, r: int, u: int, ids: Seq<int>, cs: Seq<Set<int>>, j: int, k: int)
    requires ids_ok(s, u, ids), cs_ok(s, u, ids, cs), sep(ids, cs), cs.len() > 0, cs.last().contains(j),
        ids.len() + 1 + cs.last().remove(j).len() - far(s, u, cs.last().remove(j), j, k).len() < r,
    ensures ({
        let cs2 = cs.update(cs.len() - 1, cs.last().remove(j));
        same_pend(s, r, u, ids, cs, ids, cs2) && cs_ok(s, u, ids, cs2) && sep(ids, cs2)
    }),
{
    reveal(same_pend); reveal(sep);
    lemma_remove_top(s, u, ids, cs, j);
    let t = cs.len() - 1;
    let c2 = cs.last().remove(j);
    let cs2 = cs.update(t, c2);
    let f = far(s, u, c2, j, k);
    lemma_len_subset(f, c2);
    assert(!ids.contains(j));
    assert forall|q: Set<int>| #[trigger] wanted(s, r, u, q) implies pend(ids, cs, q) == pend(ids, cs2, q) by {
        lemma_pend_top(ids, cs, j, q);
        if pend(ids, cs, q) && !pend(ids, cs2, q) {
            let d = c2.difference(f).insert(j);
            lemma_not_far(s, u, c2, j, k, q);
            assert forall|x: int| #[trigger] q.contains(x) implies among(ids, ids.len() - 1, x) || d.contains(x) by {
                if cs[t].contains(x) && x != j { assert(c2.contains(x)); }
            }
            lemma_among(ids, d, q);
            lemma_diff_len(c2, f);
        }
    }
}
pub proof fn lemma_e_report(s: Sh, r: int, u: int, ids: Seq<int>, cs: Seq<Set<int>>, j: int)
    requires s.ok(), 1 <= u < s.n(), ids_ok(s, u, ids), cs_ok(s, u, ids, cs), sep(ids, cs), cs.len() > 0, cs.last().contains(j), ids.len() + 1 == r,
    ensures ({
        let cs2 = cs.update(cs.len() - 1, cs.last().remove(j)); let p = ids.to_set().insert(j);
        &&& cs_ok(s, u, ids, cs2) && sep(ids, cs2) && wanted(s, r, u, p) && pend(ids, cs, p) && !pend(ids, cs2, p)
        &&& forall|q: Set<int>| #[trigger] wanted(s, r, u, q) && q != p ==> pend(ids, cs, q) == pend(ids, cs2, q)
        &&& p.remove(j) =~= ids.to_set()
    }),
{
    reveal(sep); reveal(ids_ok);
    lemma_remove_top(s, u, ids, cs, j);
    lemma_push_ids(s, u, ids, j);
    lemma_ids_len(s, u, ids.push(j));
    lemma_push_set(ids, j);
    let t = cs.len() - 1;
    let c2 = cs.last().remove(j);
    let cs2 = cs.update(t, c2);
    let p = ids.to_set().insert(j);
    assert(!ids.contains(j));
    lemma_pend_top(ids, cs, j, p);
    assert(gen1(ids, cs[t], t, p)) by {
        assert forall|x: int| #[trigger] p.contains(x) implies among(ids, t, x) || cs[t].contains(x) by {
            if x != j { let i = choose|i: int| 0 <= i < ids.len() && ids[i] == x; assert(ids[i] == x); }
        }
        assert forall|i: int| 0 <= i <= t implies p.contains(#[trigger] ids[i]) by { assert(ids.contains(ids[i])); }
    }
    if pend(ids, cs2, p) {
        let a = choose|a: int| 0 <= a < ids.len() && #[trigger] gen1(ids, cs2[a], a, p);
        if a < t {
            assert(ids.contains(ids[a + 1]));
            assert(p.contains(ids[a + 1]));
            assert(!cs[a].contains(ids[a + 1]));
            assert(among(ids, a, ids[a + 1]));
            let i = choose|i: int| 0 <= i <= a && #[trigger] ids[i] == ids[a + 1];
            assert(ids[i] != ids[a + 1]);
        }
    }
    assert forall|q: Set<int>| #[trigger] wanted(s, r, u, q) && q != p implies pend(ids, cs, q) == pend(ids, cs2, q) by {
        lemma_pend_top(ids, cs, j, q);
        if pend(ids, cs, q) && !pend(ids, cs2, q) {
            assert forall|x: int| #[trigger] p.contains(x) implies q.contains(x) by {
                if x != j { let i = choose|i: int| 0 <= i < ids.len() && ids[i] == x; assert(q.contains(ids[i])); }
            }
            assert(p.subset_of(q));
            lemma_subset_equality(p, q);
        }
    }
}
pub proof fn lemma_e_deeper(s: Sh, r: int, u: int, ids: Seq<int>, cs: Seq<Set<int>>, j: int, k: int)
    requires s.ok(), 1 <= u < s.n(), ids_ok(s, u, ids), cs_ok(s, u, ids, cs), sep(ids, cs), cs.len() > 0, cs.last().contains(j),
        cs.last().remove(j).len() > 0, k >= s.v[u].N,
    ensures ({
        let c2 = cs.last().remove(j);
        let d = c2.difference(far(s, u, c2, j, k));
        let cs2 = cs.update(cs.len() - 1, c2).push(d);
        let ids2 = ids.push(j);
        &&& ids_ok(s, u, ids2) && cs_ok(s, u, ids2, cs2) && sep(ids2, cs2) && same_pend(s, r, u, ids, cs, ids2, cs2) && d.len() <= c2.len()
    }),
{
    lemma_p_deeper(s, u, ids, cs, j, k);
    reveal(same_pend); reveal(all_pend);
}
pub proof fn lemma_e_up(s: Sh, r: int, u: int, ids: Seq<int>, cs: Seq<Set<int>>)
    requires s.ok(), 1 <= u < s.n(), ids_ok(s, u, ids), cs_ok(s, u, ids, cs), sep(ids, cs), cs.len() > 0, cs.last().len() == 0, ids.len() < r,
    ensures ids_ok(s, u, ids.drop_last()), cs_ok(s, u, ids.drop_last(), cs.drop_last()), sep(ids.drop_last(), cs.drop_last()),
        same_pend(s, r, u, ids, cs, ids.drop_last(), cs.drop_last()), meas(cs.drop_last()) < meas(cs),
        ids.drop_last().to_set() =~= ids.to_set().remove(ids.last()),
{
    lemma_covd_top(s, u, ids, cs);
    lemma_up(s, u, ids, cs, s.v[u].N);
    reveal(same_pend); reveal(sep); reveal(cs_ok);
    let ids2 = ids.drop_last(); let cs2 = cs.drop_last();
    let t = cs.len() - 1;
    assert forall|a: int| 0 <= a && a + 1 < ids2.len() implies !(#[trigger] cs2[a]).contains(ids2[a + 1]) by { assert(cs2[a] == cs[a] && ids2[a + 1] == ids[a + 1]); }
    assert forall|q: Set<int>| #[trigger] wanted(s, r, u, q) implies pend(ids, cs, q) == pend(ids2, cs2, q) by {
        if pend(ids, cs, q) {
            let a = choose|a: int| 0 <= a < ids.len() && #[trigger] gen1(ids, cs[a], a, q);
            if a == t {
                assert(cs[t] =~= Set::empty());
                lemma_among(ids, cs[t], q);
            } else {
                lemma_gen_same(ids, ids2, cs[a], a, q);
                assert(gen1(ids2, cs2[a], a, q));
            }
        }
        if pend(ids2, cs2, q) {
            let a = choose|a: int| 0 <= a < ids2.len() && #[trigger] gen1(ids2, cs2[a], a, q);
            lemma_gen_same(ids, ids2, cs[a], a, q);
            assert(gen1(ids, cs[a], a, q));
        }
    }
}
pub proof fn lemma_e_start(s: Sh, r: int, u: int)
    requires s.ok(), 1 <= u < s.n(),
    ensures ({
        let ids = seq![s.v[u].spos]; let cs = seq![rset0(s, u, s.v[u].N)];
        &&& ids_ok(s, u, ids) && cs_ok(s, u, ids, cs) && sep(ids, cs) && ids.to_set() =~= set![s.v[u].spos]
        &&& forall|q: Set<int>| #[trigger] wanted(s, r, u, q) ==> pend(ids, cs, q)
    }),
{
    lemma_start(s, u, 1);
    reveal(sep);
    let ids = seq![s.v[u].spos]; let cs = seq![rset0(s, u, s.v[u].N)];
    let p = s.v[u].spos;
    assert forall|q: Set<int>| #[trigger] wanted(s, r, u, q) implies pend(ids, cs, q) by {
        assert forall|x: int| #[trigger] q.contains(x) implies among(ids, 0, x) || cs[0].contains(x) by {
            if x == p { assert(ids[0] == x); }
        }
        assert(gen1(ids, cs[0], 0, q));
    }
}

// The state of an enumerator between calls
impl CliqueEnumerator {
    pub open spec fn ids(self) -> Seq<int> { Seq::new(self.states@.len(), |i: int| self.states@[i].id as int) }
    pub open spec fn cs(self) -> Seq<Set<int>> { Seq::new(self.states@.len(), |i: int| self.states@[i].cand.set_in(self.memory)) }
    pub open spec fn ezero(self) -> bool { forall|k: int| self.memory_used <= k < self.memory@.len() ==> #[trigger] self.memory@[k] == 0 }
    pub open spec fn r(self) -> int { self.REQUIRED_SIZE as int }
    // clique q below root u (indices into u's list) will still be reported
    pub open spec fn todo(self, s: Sh, u: int, q: Set<int>) -> bool { etodo(s, self.r(), self.cur as int, self.ids(), self.cs(), u, q) }
    // no search in progress
    pub open spec fn idle(self, s: Sh) -> bool {
        self.states@.len() == 0 && self.ezero() && (self.cur < s.n() ==> self.memory_used == self.request_size && self.memory_used <= self.memory@.len())
    }
    pub open spec fn ewf(self, s: Sh) -> bool {
        &&& self.r() <= 1 ==> self.states@.len() == 0
        &&& self.r() >= 2 ==> self.cur <= s.n() && self.memory@.len() < 0x1000_0000_0000
        &&& self.r() >= 2 && self.states@.len() == 0 ==> self.idle(s)
        &&& self.r() >= 2 && self.states@.len() > 0 ==> estk(self, s, self.states@[0].res.lo() == 0, self.ids(), self.cs(), self.states@[0].res)
    }
}
pub open spec fn estk(d: CliqueEnumerator, s: Sh, sw: bool, ids: Seq<int>, cs: Seq<Set<int>>, rg: graphBits) -> bool {
    let u = d.cur as int; let n = s.v[u].N;
    &&& 1 <= u < s.n() && stk(d.states@, d.memory, 0, n, sw, ids, cs, rg) && ids_ok(s, u, ids) && cs_ok(s, u, ids, cs) && sep(ids, cs)
    &&& d.states@.len() == ids.len() && ids.len() == cs.len() && d.clique_size == ids.len() && d.request_size == blen(n)
    &&& d.memory_used == (ids.len() + 1) * blen(n) && d.memory@.len() == (d.r() + 1) * blen(n) && d.memory@.len() < 0x1000_0000_0000
    &&& d.ezero() && ids.len() < d.r() && d.r() >= 2
}
// the stack determines the ghost sequences
proof fn lemma_stk_views(d: CliqueEnumerator, s: Sh, sw: bool, ids: Seq<int>, cs: Seq<Set<int>>, rg: graphBits)
    requires estk(d, s, sw, ids, cs, rg), s.ok(),
    ensures ids =~= d.ids(), cs =~= d.cs(), ids.len() > 0 ==> d.ewf(s) && (d.states@[0].res.lo() == 0) == sw && d.states@[0].res == rg,
{
    reveal(stk);
    let n = s.v[d.cur as int].N;
    assert(s.vok(d.cur as int));
    assert forall|i: int| 0 <= i < ids.len() implies ids[i] == d.ids()[i] && cs[i] == d.cs()[i] by {
        assert(st_ok(d.states@[i], d.memory, ids[i], cs[i], cand_lo(0, blen(n), sw, i), n, rg));
    }
    assert(ids =~= d.ids() && cs =~= d.cs());
    if ids.len() > 0 { assert(st_ok(d.states@[0], d.memory, ids[0], cs[0], cand_lo(0, blen(n), sw, 0), n, rg)); }
}
pub open spec fn eroot(d: CliqueEnumerator, s: Sh, x: SearchState, sw: bool, j: int) -> bool {
    let u = d.cur as int; let n = s.v[u].N; let bb = blen(n); let m = d.memory;
    &&& d.request_size == bb && d.memory_used == 2 * bb && m@.len() == (d.r() + 1) * bb && m@.len() < 0x1000_0000_0000 && d.ezero() && d.r() >= 2 && d.states@.len() == 0
    &&& x.id == s.v[u].spos && x.start_at == 0
    &&& x.res.wf(m) && x.res.lo() == res_lo(0, bb, sw) && x.res.n() == n && x.res.set_in(m) == set![s.v[u].spos]
    &&& x.cand.wf(m) && x.cand.lo() == cand_lo(0, bb, sw, 0) && x.cand.n() == n && x.cand.set_in(m) == rset0(s, u, j)
    &&& d.clique_potential == 1 + rset0(s, u, j).len() && d.clique_potential <= 1 + j
}
proof fn lemma_er_step(d0: CliqueEnumerator, d: CliqueEnumerator, s: Sh, x: SearchState, sw: bool, j: int)
    requires s.ok(), 1 <= d0.cur < s.n(), 0 <= j < s.v[d0.cur as int].N, eroot(d0, s, x, sw, j),
        d == (CliqueEnumerator { memory: d.memory, clique_potential: d.clique_potential, j: d.j, vert: d.vert, ..d0 }),
        ({
            let c = s.rin(d0.cur as int, j) && j != s.v[d0.cur as int].spos;
            &&& c ==> only_block(d0.memory, d.memory, x.cand) && x.cand.wf(d.memory) && x.cand.set_in(d.memory) =~= x.cand.set_in(d0.memory).insert(j) && d.clique_potential == d0.clique_potential + 1
            &&& !c ==> d.memory == d0.memory && d.clique_potential == d0.clique_potential
        }),
    ensures eroot(d, s, x, sw, j + 1),
{
    let u = d0.cur as int;
    assert(s.vok(u));
    lemma_rset0(s, u, j);
    if d.memory != d0.memory { lemma_frame(d0.memory, d.memory, x.res, x.cand.lo(), x.cand.hi()); }
}
proof fn lemma_room2(r: int, bb: int)
    requires r >= 2, bb >= 1,
    ensures 3 * bb <= (r + 1) * bb, r <= 0x1_0000_0000 && bb <= 0x400_0001 ==> (r + 1) * bb <= 0x1000_0000_0000_0000,
{
    assert(3 * bb <= (r + 1) * bb) by(nonlinear_arith) requires r >= 2, bb >= 1;
    if r <= 0x1_0000_0000 && bb <= 0x400_0001 {
        assert((r + 1) * bb <= 0x1000_0000_0000_0000) by(nonlinear_arith) requires r <= 0x1_0000_0000, 1 <= bb <= 0x400_0001, r >= 2;
    }
}

@fn CliqueEnumerator::new_u(size)
@ensures
    r.REQUIRED_SIZE == size, r.cur == 0, r.states@.len() == 0, r.memory_used == 0, r.request_size == 0, r.memory@.len() == 0,
    forall|s: Sh| s.ok() ==> #[trigger] r.ewf(s),
    forall|s: Sh, u: int, q: Set<int>| s.ok() ==> #[trigger] r.todo(s, u, q) == wanted(s, size as int, u, q),

@fn CliqueEnumerator::load_memory(N)
@requires
    old(self).memory_used < old(self).memory@.len(), old(self).memory_used + N <= old(self).memory@.len() < 0x1000_0000_0000,
@ensures
    r.off == old(self).memory_used, r.gen == old(self).memory.gen,
    *final(self) == (CliqueEnumerator { memory_used: (old(self).memory_used + N) as u64, ..*old(self) }),

@fn CliqueEnumerator::clear_memory(N)
@locals u64 i
@requires
    N <= old(self).memory_used <= old(self).memory@.len() < 0x1000_0000_0000,
@ensures
    final(self).memory.gen == old(self).memory.gen, final(self).memory_used == old(self).memory_used - N,
    same_outside(old(self).memory@, final(self).memory@, old(self).memory_used - N, old(self).memory_used as int),
    forall|k: int| final(self).memory_used <= k < old(self).memory_used ==> #[trigger] final(self).memory@[k] == 0,
    *final(self) == (CliqueEnumerator { memory_used: final(self).memory_used, memory: final(self).memory, ..*old(self) }),
@loop 1
@invariant
    i <= N, N <= old(self).memory_used <= old(self).memory@.len() < 0x1000_0000_0000,
    self.memory_used == old(self).memory_used - N, self.memory.gen == old(self).memory.gen,
    same_outside(old(self).memory@, self.memory@, old(self).memory_used - N, old(self).memory_used as int),
    forall|k: int| self.memory_used <= k < self.memory_used + i ==> #[trigger] self.memory@[k] == 0,
    *self == (CliqueEnumerator { memory_used: self.memory_used, memory: self.memory, ..*old(self) }),
@loop_decreases
    N - i

@fn CliqueEnumerator::load_vertex(G)
@locals SearchState x
@requires
    G.gst(), 1 <= old(self).cur < G.n_vert, old(self).states@.len() == 0, old(self).memory_used == 0, old(self).ezero(), 2 <= old(self).r() <= G.n_vert,
@ensures
    final(self).cur == old(self).cur, final(self).REQUIRED_SIZE == old(self).REQUIRED_SIZE,
    r ==> final(self).states@.len() == 1 && final(self).ewf(G.sh())
        && forall|q: Set<int>| #[trigger] wanted(G.sh(), old(self).r(), old(self).cur as int, q) ==> pend(final(self).ids(), final(self).cs(), q),
    !r ==> final(self).states@.len() == 0 && final(self).memory_used == 0 && final(self).ezero() && final(self).memory@.len() < 0x1000_0000_0000
        && forall|q: Set<int>| !#[trigger] wanted(G.sh(), old(self).r(), old(self).cur as int, q),
@loop 1
@invariant
    G.gst(), u == self.cur, 1 <= u < G.n_vert, s == G.sh(), n == s.v[u].N, G.vertices@[u].N == n, G.vertices@[u].spos == s.v[u].spos, u < G.vertices@.len(),
    self.cur == old(self).cur, self.REQUIRED_SIZE == old(self).REQUIRED_SIZE,
    self.j <= G.vertices@[u].spos < n, eroot(*self, s, x, sw, self.j as int),
@loop_decreases
    G.vertices@[u].spos - self.j
@loop 2
@invariant
    G.gst(), u == self.cur, 1 <= u < G.n_vert, s == G.sh(), n == s.v[u].N, G.vertices@[u].N == n, G.vertices@[u].spos == s.v[u].spos, u < G.vertices@.len(),
    self.cur == old(self).cur, self.REQUIRED_SIZE == old(self).REQUIRED_SIZE,
    s.v[u].spos < self.j <= n, eroot(*self, s, x, sw, self.j as int),
@loop_decreases
    n - self.j
@at begin
    let ghost s = G.sh(); let ghost u = self.cur as int; let ghost n = s.v[u].N; let ghost mut sw = true;
    proof { lemma_root(*G, u); lemma_room2(self.r(), blen(n)); }
@at before /SearchState::new_vertex_p_p/
    let ghost m0 = self.memory;
@at loop 1 before
    proof {
        sw = x.res.lo() == 0;
        lemma_zero_block(m0, x.res);
        lemma_zero_block(m0, x.cand);
        lemma_frame(m0, self.memory, x.cand, x.res.lo(), x.res.hi());
        lemma_rset0(s, u, 0);
        assert(x.res.set_in(self.memory) =~= set![s.v[u].spos]);
    }
@at loop 1 begin
    let ghost d1 = *self;
    proof { lemma_root(*G, u); lemma_count_step(*G, u, self.j as int); }
@at loop 1 body_end
    proof { lemma_er_step(d1, *self, s, x, sw, self.j as int); }
@at loop 1 after
    proof { lemma_rset0(s, u, self.j as int); }
@at loop 2 begin
    let ghost d1 = *self;
    proof { lemma_root(*G, u); lemma_count_step(*G, u, self.j as int); }
@at loop 2 body_end
    proof { lemma_er_step(d1, *self, s, x, sw, self.j as int); }
@at loop 2 after
    proof {
        lemma_root(*G, u);
        lemma_room2(self.r(), blen(n));
        assert forall|q: Set<int>| #[trigger] s.rclq(u, q) implies q.len() <= self.clique_potential by { lemma_root_small(s, u, q); }
    }
@at end
    proof {
        lemma_e_start(s, self.r(), u);
        lemma_stk_one(x, self.memory, 0, n, sw, s.v[u].spos, rset0(s, u, n));
        assert(self.states@ =~= seq![x]);
        lemma_stk_views(*self, s, sw, seq![s.v[u].spos], seq![rset0(s, u, n)], x.res);
    }

@fn CliqueEnumerator::process_vertex(G)
@requires
    G.gst(), old(self).cur < G.n_vert, old(self).states@.len() == 0, old(self).memory_used == 0, old(self).ezero(), 2 <= old(self).r(),
    old(self).memory@.len() < 0x1000_0000_0000,
@ensures
    old(self).cur < final(self).cur <= G.n_vert, final(self).REQUIRED_SIZE == old(self).REQUIRED_SIZE, final(self).ewf(G.sh()),
    skipped(G.sh(), old(self).r(), old(self).cur as int, final(self).cur as int),
    final(self).cur == G.n_vert || final(self).states@.len() == 1,
    final(self).states@.len() > 0 ==> opened(G.sh(), old(self).r(), final(self).cur as int, final(self).ids(), final(self).cs()),
@loop 1
@invariant
    G.gst(), old(self).cur < self.cur <= G.n_vert, self.REQUIRED_SIZE == old(self).REQUIRED_SIZE, 2 <= self.r(), G.n_vert == G.vertices@.len(), G.n_vert == G.sh().n(),
    skipped(G.sh(), old(self).r(), old(self).cur as int, self.cur as int),
@invariant_except_break
    self.states@.len() == 0, self.memory_used == 0, self.ezero(), self.memory@.len() < 0x1000_0000_0000,
@loop_ensures
    old(self).cur < self.cur <= G.n_vert, self.REQUIRED_SIZE == old(self).REQUIRED_SIZE, self.ewf(G.sh()),
    skipped(G.sh(), old(self).r(), old(self).cur as int, self.cur as int),
    self.cur == G.n_vert || self.states@.len() == 1,
    self.states@.len() > 0 ==> opened(G.sh(), old(self).r(), self.cur as int, self.ids(), self.cs()),
@loop_decreases
    G.n_vert - self.cur
@at begin
    proof { reveal(skipped); assert(G.sh().n() == G.vertices@.len()); }
@at loop 1 begin
    proof { reveal(skipped); reveal(opened); lemma_root(*G, self.cur as int); assert(G.vmcs(self.cur as int)); }

@lib
// q was stored for vertex u, nothing else changed
proof fn lemma_put(g0: graph, g: graph, u: int, q: Set<int>)
    requires g0.gwf(), 1 <= u < g0.n_vert, g == (graph { edge_bits: g.edge_bits, ..g0 }),
        only_block(g0.edge_bits, g.edge_bits, g0.vertices@[u].bits), g.vertices@[u].bits.clean(g.edge_bits), g.store_of(u) == q,
        g0.sh().rclq(u, q), q.len() > 0,
    ensures g.gwf(), g.sh() == g0.sh(), forall|w: int| 0 <= w < g0.n_vert && w != u ==> #[trigger] g.store_of(w) == g0.store_of(w),
{
    lemma_root(g0, u);
    assert(g.sh() == g0.sh());
    assert forall|w: int| 0 <= w < g.n_vert && w != u implies g.vsto(w) && #[trigger] g.store_of(w) == g0.store_of(w) by {
        assert(g0.vlay(w) && g0.vlay(u) && g0.vsto(w) && g0.sh().vok(w) && g0.sh().v[w] == vsh(g0.vertices@[w]));
        if w < u { assert(g0.vertices@[w].ebo + blen(g0.vertices@[w].N as int) <= g0.vertices@[u].ebo); }
        else { assert(g0.vertices@[u].ebo + blen(g0.vertices@[u].N as int) <= g0.vertices@[w].ebo); }
        lemma_frame(g0.edge_bits, g.edge_bits, g0.vertices@[w].bits, g0.vertices@[u].bits.lo(), g0.vertices@[u].bits.hi());
    }
    assert forall|w: int| 0 <= w < g.n_vert implies #[trigger] g.vlay(w) by { assert(g0.vlay(w)); }
    assert forall|w: int| 0 <= w < g.n_vert implies #[trigger] g.vsto(w) by { assert(w == u || g.store_of(w) == g0.store_of(w)); }
    assert forall|w: int| 1 <= w < g.n_vert implies #[trigger] g.vroom(w) by { assert(g0.vroom(w)); }
    assert forall|w: int| 0 <= w < g.n_vert implies #[trigger] g.vmcs(w) by { assert(g0.vmcs(w)); }
}
// a single vertex
proof fn lemma_single(s: Sh, u: int)
    requires s.ok(), 1 <= u < s.n(),
    ensures wanted(s, 1, u, set![s.v[u].spos]), forall|q: Set<int>| #[trigger] wanted(s, 1, u, q) ==> q == set![s.v[u].spos],
{
    assert(s.vok(u));
    let p = s.v[u].spos;
    assert(s.nb(u, p) == u);
    assert(s.adj(u, u));
    assert forall|q: Set<int>| #[trigger] wanted(s, 1, u, q) implies q == set![p] by {
        lemma_subset_equality(set![p], q);
    }
}
proof fn lemma_same_pend(s: Sh, r: int, c0: int, i0: Seq<int>, cs0: Seq<Set<int>>, u: int, ids: Seq<int>, cs: Seq<Set<int>>, ids2: Seq<int>, cs2: Seq<Set<int>>)
    requires same_todo(s, r, c0, i0, cs0, u, ids, cs), same_pend(s, r, u, ids, cs, ids2, cs2),
    ensures same_todo(s, r, c0, i0, cs0, u, ids2, cs2),
{ reveal(same_todo); reveal(same_pend); }
proof fn lemma_todo_refl(s: Sh, r: int, c0: int, i0: Seq<int>, cs0: Seq<Set<int>>)
    ensures same_todo(s, r, c0, i0, cs0, c0, i0, cs0),
{ reveal(same_todo); }
// the stack below u is empty: on to the next root
proof fn lemma_todo_next(s: Sh, r: int, c0: int, i0: Seq<int>, cs0: Seq<Set<int>>, u: int, ids: Seq<int>, cs: Seq<Set<int>>, u2: int, ids2: Seq<int>, cs2: Seq<Set<int>>)
    requires same_todo(s, r, c0, i0, cs0, u, ids, cs), ids.len() == 0, u < u2 <= s.n(),
        skipped(s, r, u, u2),
        u2 == s.n() || opened(s, r, u2, ids2, cs2),
    ensures same_todo(s, r, c0, i0, cs0, u2, ids2, cs2),
{ reveal(same_todo); reveal(skipped); reveal(opened); }
proof fn lemma_todo_end(s: Sh, r: int, c0: int, i0: Seq<int>, cs0: Seq<Set<int>>, u: int, ids: Seq<int>, cs: Seq<Set<int>>)
    requires same_todo(s, r, c0, i0, cs0, u, ids, cs), u >= s.n(),
    ensures forall|w: int, q: Set<int>| !#[trigger] etodo(s, r, c0, i0, cs0, w, q),
{
    reveal(same_todo);
    assert forall|w: int, q: Set<int>| !#[trigger] etodo(s, r, c0, i0, cs0, w, q) by { if wanted(s, r, w, q) { assert(!etodo(s, r, u, ids, cs, w, q)); } }
}
proof fn lemma_todo_report(s: Sh, r: int, c0: int, i0: Seq<int>, cs0: Seq<Set<int>>, u: int, ids: Seq<int>, cs: Seq<Set<int>>, cs2: Seq<Set<int>>, p: Set<int>)
    requires same_todo(s, r, c0, i0, cs0, u, ids, cs), wanted(s, r, u, p), pend(ids, cs, p), !pend(ids, cs2, p),
        forall|q: Set<int>| #[trigger] wanted(s, r, u, q) && q != p ==> pend(ids, cs, q) == pend(ids, cs2, q),
    ensures etodo(s, r, c0, i0, cs0, u, p),
        forall|w: int, q: Set<int>| #[trigger] etodo(s, r, u, ids, cs2, w, q) == (etodo(s, r, c0, i0, cs0, w, q) && !(w == u && q == p)),
{
    reveal(same_todo);
    assert forall|w: int, q: Set<int>| #[trigger] etodo(s, r, u, ids, cs2, w, q) == (etodo(s, r, c0, i0, cs0, w, q) && !(w == u && q == p)) by {
        if wanted(s, r, w, q) { assert(etodo(s, r, c0, i0, cs0, w, q) == etodo(s, r, u, ids, cs, w, q)); }
    }
}
pub open spec fn etop(d: CliqueEnumerator, cs: Seq<Set<int>>, n: int, ix: u64) -> bool {
    &&& d.states@.len() == cs.len() && cs.len() > 0 && ix == cs.len() - 1
    &&& d.j <= n && forall|k: int| #[trigger] cs.last().contains(k) ==> d.j <= k < n
    &&& d.candidates_left == cs.last().len() && d.candidates_left <= n && d.states@[ix as int].start_at <= d.j
}
// the top state or the shared result changed in place
proof fn lemma_estk_top(d0: CliqueEnumerator, d: CliqueEnumerator, s: Sh, sw: bool, ids: Seq<int>, cs: Seq<Set<int>>, c2: Set<int>, rg: graphBits)
    requires estk(d0, s, sw, ids, cs, rg), d0.states@.len() > 0, s.ok(),
        d == (CliqueEnumerator { states: d.states, memory: d.memory, candidates_left: d.candidates_left, clique_potential: d.clique_potential, j: d.j, k: d.k, vert: d.vert, start: d.start, ans: d.ans, to_remove: d.to_remove, ..d0 }),
        d.states@.len() == d0.states@.len(),
        ({
            let t = d0.states@.len() - 1; let c = d0.states@[t].cand; let n = s.v[d0.cur as int].N;
            &&& d.states@ == d0.states@.update(t, SearchState { start_at: d.states@[t].start_at, ..d0.states@[t] })
            &&& only_block(d0.memory, d.memory, c) && c.wf(d.memory) && c.set_in(d.memory) == c2
            &&& d.states@[t].start_at <= n && forall|k: int| #[trigger] c2.contains(k) ==> k >= d.states@[t].start_at
        }),
        cs_ok(s, d0.cur as int, ids, cs.update(cs.len() - 1, c2)), sep(ids, cs.update(cs.len() - 1, c2)),
    ensures estk(d, s, sw, ids, cs.update(cs.len() - 1, c2), rg),
{
    let n = s.v[d0.cur as int].N;
    assert(s.vok(d0.cur as int));
    lemma_top(d0.states@, d0.memory, 0, n, sw, ids, cs, rg);
    lemma_stk_top(d0.states@, d.states@, d0.memory, d.memory, 0, n, sw, ids, cs, c2, rg);
}

@fn CliqueEnumerator::process_graph(G)
@locals SearchState cur_state, SearchState future_state
@requires
    old(G).gwf(), old(self).ewf(old(G).sh()), old(self).cur < u64::MAX,
@ensures
    final(G).gwf(), final(G).sh() == old(G).sh(), *final(G) == (graph { edge_bits: final(G).edge_bits, ..*old(G) }),
    final(self).REQUIRED_SIZE == old(self).REQUIRED_SIZE, final(self).ewf(old(G).sh()),
    r == final(self).cur, r < final(G).n_vert ==> r >= 1,
    // one of the cliques still to be reported, which is then no longer one of them
    r < final(G).n_vert ==> old(self).todo(old(G).sh(), r as int, final(G).store_of(r as int))
        && (forall|u: int, q: Set<int>| #[trigger] final(self).todo(old(G).sh(), u, q)
            == (old(self).todo(old(G).sh(), u, q) && !(u == r && q == final(G).store_of(r as int))))
        && (forall|w: int| 0 <= w < old(G).n_vert && w != r ==> #[trigger] final(G).store_of(w) == old(G).store_of(w)),
    // none is left
    r >= final(G).n_vert && old(self).r() >= 1 ==> *final(G) == *old(G)
        && (forall|u: int, q: Set<int>| !#[trigger] old(self).todo(old(G).sh(), u, q))
        && (forall|u: int, q: Set<int>| !#[trigger] final(self).todo(old(G).sh(), u, q)),
    old(self).r() == 0 ==> r == final(G).n_vert && *final(G) == *old(G),
    r <= old(self).cur + 1 || r <= old(G).n_vert,
@loop 1
@invariant
    g0 == *old(G), c0 == old(self).cur, i0 == old(self).ids(), cs0 == old(self).cs(),
    g0.gwf(), *G == g0, s == g0.sh(), s.ok(), s.n() == G.n_vert, self.REQUIRED_SIZE == old(self).REQUIRED_SIZE, R == self.r(), R >= 2 || self.cur >= G.n_vert, R >= 1,
    R >= 2 ==> self.cur <= G.n_vert && self.memory@.len() < 0x1000_0000_0000,
    same_todo(s, R, c0, i0, cs0, self.cur as int, ids, cs), ids.len() == self.states@.len(),
    self.states@.len() == 0 ==> (R >= 2 ==> self.idle(s)),
    self.states@.len() > 0 ==> estk(*self, s, sw, ids, cs, rg),
    self.cur <= old(self).cur + 1 || self.cur <= G.n_vert,
@loop_decreases
    G.n_vert - self.cur, meas(cs), self.states@.len()
@loop 2
@invariant
    g0 == *old(G), c0 == old(self).cur, i0 == old(self).ids(), cs0 == old(self).cs(),
    g0.gwf(), *G == g0, s == g0.sh(), s.ok(), s.n() == G.n_vert, G.vertices@.len() == s.n(), self.REQUIRED_SIZE == old(self).REQUIRED_SIZE, R == self.r(), R >= 2,
    u == self.cur, 1 <= u < s.n(), n == s.v[u].N, G.vertices@[u].N == n, self.cur <= G.n_vert,
    same_todo(s, R, c0, i0, cs0, u, ids, cs), estk(*self, s, sw, ids, cs, rg),
@invariant_except_break
    meas(cs) <= meas0, etop(*self, cs, n, ix_cur_state),
@loop_ensures
    same_todo(s, R, c0, i0, cs0, u, ids, cs), estk(*self, s, sw, ids, cs, rg), *G == g0, self.REQUIRED_SIZE == old(self).REQUIRED_SIZE, u == self.cur,
    self.j >= n ==> meas(cs) <= meas0 && etop(*self, cs, n, ix_cur_state),
    self.j < n ==> meas(cs) < meas0 && ids.len() > 0,
@loop_decreases
    n - self.j
@loop 3
@invariant
    s.ok(), s == G.sh(), s.n() == G.vertices@.len(), u == self.cur, 1 <= u < s.n(), n == s.v[u].N, G.vertices@[u].N == n, n <= 0x1_0000_0000, R == self.r(),
    *self == (CliqueEnumerator { k: self.k, ans: self.ans, to_remove: self.to_remove, clique_potential: self.clique_potential, start: self.start, ..d3 }),
    ix_cur_state < self.states@.len(), self.states@[ix_cur_state as int].cand.wf(self.memory), self.states@[ix_cur_state as int].cand.set_in(self.memory) == c2,
    self.states@[ix_cur_state as int].cand.n() == n, self.candidates_left == c2.len(), self.candidates_left <= n, self.clique_size <= n,
    self.vert == s.nb(u, self.j as int), scan(s, u, c2, self.j as int, self.k as int, self.start as int, self.to_remove@),
    self.clique_potential == self.candidates_left - self.to_remove@.len() + self.clique_size + 1,
@loop_decreases
    n - self.k
@loop 4
@invariant
    it_k <= self.to_remove@.len(), future_state == fs, *self == (CliqueEnumerator { memory: self.memory, ..d4 }), self.memory.gen == d4.memory.gen,
    same_outside(d4.memory@, self.memory@, fs.cand.lo(), fs.cand.hi()), fs.cand.wf(self.memory),
    fs.cand.set_in(self.memory) == minus(c2, self.to_remove@, it_k as int),
    forall|i: int| 0 <= i < self.to_remove@.len() ==> #[trigger] self.to_remove@[i] < fs.cand.n(),
@loop_decreases
    self.to_remove@.len() - it_k
@at begin
    let ghost g0 = *G; let ghost s = G.sh(); let ghost R = self.r(); let ghost c0 = self.cur as int; let ghost i0 = self.ids(); let ghost cs0 = self.cs();
    let ghost mut sw = true; let ghost mut ids = self.ids(); let ghost mut cs = self.cs(); let ghost mut rg = arbitrary::<graphBits>();
    let ghost mut meas0 = 0nat; let ghost mut c2 = Set::<int>::empty(); let ghost mut d3 = *self; let ghost mut d4 = *self; let ghost mut d2 = *self;
    let ghost mut fs = arbitrary::<SearchState>();
    proof { assert(G.sh().n() == G.vertices@.len()); lemma_todo_refl(s, R, c0, i0, cs0); if self.states@.len() > 0 { rg = self.states@[0].res; sw = rg.lo() == 0; } }
@at before /bits\.clear\(0u64/
    proof { lemma_root(g0, self.cur as int); assert(g0.vsto(self.cur as int)); lemma_single(s, self.cur as int); }
@at before /return self\.cur;/ 2
    proof {
        let p = set![s.v[self.cur as int].spos];
        assert(G.store_of(self.cur as int) =~= p);
        lemma_put(g0, *G, self.cur as int, p);
    }
@at loop 1 before
    proof { if R == 1 { reveal(same_todo); } }
@at loop 1 begin
    let ghost d1 = *self; let ghost ids1 = ids; let ghost cs1 = cs; let ghost u = self.cur as int; let ghost n = s.v[u].N;
    proof { if self.states@.len() > 0 { lemma_root(g0, u); lemma_top(self.states@, self.memory, 0, n, sw, ids, cs, rg); meas0 = meas(cs); } }
@at before /self\.process_vertex\(G\)/
    proof { assert(self.states@ =~= d1.states@); }
@at after /self\.process_vertex\(G\)/
    proof {
        ids = self.ids(); cs = self.cs();
        if self.states@.len() > 0 { rg = self.states@[0].res; sw = rg.lo() == 0; }
        lemma_todo_next(s, R, c0, i0, cs0, u, ids1, cs1, self.cur as int, ids, cs);
    }
@at loop 2 before
    proof {
        let t = ids.len() - 1;
        assert(cs.update(t, cs.last()) =~= cs);
        assert(self.states@ =~= d1.states@.update(t, SearchState { start_at: self.states@[t].start_at, ..d1.states@[t] }));
        lemma_estk_top(d1, *self, s, sw, ids, cs, cs.last(), rg);
        assert forall|k: int| #[trigger] cs.last().contains(k) implies self.j <= k < n by { assert(self.states@[t].cand.set_in(self.memory).contains(k)); }
    }
@at loop 2 begin
    let ghost e2 = *self; let ghost cs2 = cs;
    proof {
        lemma_top(self.states@, self.memory, 0, n, sw, ids, cs, rg); lemma_root(g0, u);
        c2 = cs.last().remove(self.j as int);
        if cs.last().contains(self.j as int) {
            lemma_remove_top(s, u, ids, cs, self.j as int);
            lemma_ids_len(s, u, ids);
            lemma_push_ids(s, u, ids, self.j as int);
            lemma_ids_len(s, u, ids.push(self.j as int));
        }
        assert(0 <= s.nb(u, self.j as int) < s.n()) by { assert(s.vok(u)); }
        assert(s.v[s.nb(u, self.j as int)] == vsh(g0.vertices@[s.nb(u, self.j as int)]));
    }
@at loop 3 before
    proof {
        assert forall|k: int| #[trigger] c2.contains(k) implies self.j + 1 <= k < n by { assert(cs.last().contains(k)); }
        lemma_scan_start(s, u, c2, self.j as int, self.k as int);
        assert(self.to_remove@ =~= Seq::<u64>::empty());
        d3 = *self;
    }
@at loop 3 begin
    let ghost e3 = *self;
    proof { if c2.contains(self.k as int) { lemma_scan_pre(*G, s, u, c2, self.j as int, self.k as int, self.start as int, self.to_remove@); } }
@at loop 3 body_end
    proof {
        if c2.contains(self.k as int) {
            lemma_scan_step(*G, s, u, c2, self.j as int, self.k as int, e3.start as int, e3.to_remove@, self.ans as int, self.k + 1, self.to_remove@);
        } else {
            lemma_scan_skip(s, u, c2, self.j as int, self.k as int, self.start as int, self.to_remove@);
        }
    }
@at loop 3 after
    proof {
        let t = ids.len() - 1;
        lemma_meas_push(cs2, c2, c2);
        cs = cs2.update(t, c2);
        if self.clique_potential < self.REQUIRED_SIZE {
            lemma_e_drop(s, R, u, ids, cs2, self.j as int, self.k as int);
            lemma_same_pend(s, R, c0, i0, cs0, u, ids, cs2, ids, cs);
        } else if ids.len() + 1 >= R {
            lemma_e_report(s, R, u, ids, cs2, self.j as int);
            lemma_todo_report(s, R, c0, i0, cs0, u, ids, cs2, cs, ids.to_set().insert(self.j as int));
        } else {
            assert(c2.len() > 0);
            lemma_e_deeper(s, R, u, ids, cs2, self.j as int, self.k as int);
        }
        reveal(sep);
        lemma_estk_top(e2, *self, s, sw, ids, cs2, c2, rg);
        lemma_top(self.states@, self.memory, 0, n, sw, ids, cs, rg);
        d2 = *self;
    }
@at after /\.res\.set\(self\.j, /
    let ghost da = *self;
    proof { lemma_root(g0, u); }
@at before /return self\.cur;/ 3
    proof {
        let p = ids.to_set().insert(self.j as int);
        lemma_put(g0, *G, u, p);
        assert(self.states@ =~= d2.states@);
        lemma_stk_keep(self.states@, d2.memory, self.memory, 0, n, sw, ids, cs, rg, 0, 0);
        lemma_stk_views(*self, s, sw, ids, cs, rg);
        assert(G.store_of(self.cur as int) == p && self.ids() == ids && self.cs() == cs);
        assert forall|w: int, q: Set<int>| #[trigger] self.todo(s, w, q) == (old(self).todo(s, w, q) && !(w == u && q == p)) by {
            assert(etodo(s, R, u, ids, cs, w, q) == (etodo(s, R, c0, i0, cs0, w, q) && !(w == u && q == p)));
        }
    }
@at before /load_memory\(self\.request_size\)/
    proof {
        let l = ids.len() as int;
        assert((l + 1) * blen(n) + blen(n) == (l + 2) * blen(n) && (l + 2) * blen(n) <= (R + 1) * blen(n)) by(nonlinear_arith) requires l + 1 < R, blen(n) >= 1, l >= 0;
    }
@at loop 4 before
    proof {
        d4 = *self; fs = future_state;
        lemma_minus(c2, self.to_remove@, 0);
        assert forall|i: int| 0 <= i < self.to_remove@.len() implies #[trigger] self.to_remove@[i] < fs.cand.n() by {
            assert(far(s, u, c2, self.j as int, self.k as int).contains(self.to_remove@[i] as int));
        }
    }
@at loop 4 begin
    proof { lemma_minus(c2, self.to_remove@, it_k as int); }
@at loop 4 after
    proof {
        lemma_minus_far(s, u, c2, self.j as int, self.k as int, self.start as int, self.to_remove@);
        lemma_frame(d4.memory, self.memory, rg, fs.cand.lo(), fs.cand.hi());
        let d = minus(c2, self.to_remove@, self.to_remove@.len() as int);
        lemma_stk_push(d2.states@, future_state, d2.memory, self.memory, 0, n, sw, ids, cs, d, rg);
        lemma_meas_push(cs2, c2, d);
        lemma_same_pend(s, R, c0, i0, cs0, u, ids, cs2, ids.push(self.j as int), cs.push(d));
        ids = ids.push(self.j as int); cs = cs.push(d);
    }
@at loop 2 after
    let ghost d7 = *self;
    proof {
        if self.j >= n {
            lemma_root(g0, u);
            lemma_top(self.states@, self.memory, 0, n, sw, ids, cs, rg);
            assert(cs.last() =~= Set::<int>::empty());
            lemma_e_up(s, R, u, ids, cs);
            lemma_same_pend(s, R, c0, i0, cs0, u, ids, cs, ids.drop_last(), cs.drop_last());
            lemma_slots(blen(n), ids.len() - 1, ids.len() as int);
            let l = ids.len() as int;
            assert((l + 1) * blen(n) <= (R + 1) * blen(n)) by(nonlinear_arith) requires l < R, blen(n) >= 1;
            assert(ids.to_set().contains(ids.last())) by { assert(ids.contains(ids.last())); }
        }
    }
@at before /self\.clique_size\.wrapping_sub/
    let ghost d8 = *self;
@at after /self\.clear_memory\(self\.request_size\)/ 2
    proof {
        lemma_stk_pop(d7.states@, d7.memory, d8.memory, self.memory, 0, n, sw, ids, cs, rg);
        assert(self.ezero()); assert(self.memory_used <= self.memory@.len());
        assert(ids.len() == 1 ==> self.memory_used == self.request_size && self.states@.len() == 0) by { let l = ids.len() as int; assert(l == 1 ==> (l + 1) * blen(n) == 2 * blen(n)); }
        ids = ids.drop_last(); cs = cs.drop_last();
        assert(self.states@.len() == 0 ==> self.idle(s));
    }
@at loop 1 after
    proof { lemma_todo_end(s, R, c0, i0, cs0, self.cur as int, ids, cs); }
