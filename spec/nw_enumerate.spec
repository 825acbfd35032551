@lib
// Enumeration of the cliques of weight R or more below a root u: what the stack (ids, cs) still stands for.
pub open spec fn wanted(s: Sh, r: real, u: int, q: Set<int>) -> bool { 1 <= u < s.n() && s.rclq(u, q) && wof(s, u, q) >= r && q.len() >= 2 }
// the second stack stands for nothing new, and with positive weights for all that is wanted
#[verifier::opaque]
pub open spec fn same_pend(s: Sh, r: real, u: int, ids: Seq<int>, cs: Seq<Set<int>>, ids2: Seq<int>, cs2: Seq<Set<int>>) -> bool {
    forall|q: Set<int>| #[trigger] wanted(s, r, u, q) ==> (pend(ids2, cs2, q) ==> pend(ids, cs, q)) && (wpos(s) && pend(ids, cs, q) ==> pend(ids2, cs2, q))
}
// still to be visited
pub open spec fn etodo(s: Sh, r: real, cur: int, ids: Seq<int>, cs: Seq<Set<int>>, u: int, q: Set<int>) -> bool {
    wanted(s, r, u, q) && (u > cur || (u == cur && pend(ids, cs, q)))
}
#[verifier::opaque]
pub open spec fn same_todo(s: Sh, r: real, c1: int, ids1: Seq<int>, cs1: Seq<Set<int>>, c2: int, ids2: Seq<int>, cs2: Seq<Set<int>>) -> bool {
    forall|u: int, q: Set<int>| #[trigger] wanted(s, r, u, q) ==>
        (etodo(s, r, c2, ids2, cs2, u, q) ==> etodo(s, r, c1, ids1, cs1, u, q)) && (wpos(s) && etodo(s, r, c1, ids1, cs1, u, q) ==> etodo(s, r, c2, ids2, cs2, u, q))
}
// nothing is wanted strictly between u and u2; all that is wanted below u is pending
#[verifier::opaque]
pub open spec fn skipped(s: Sh, r: real, u: int, u2: int) -> bool { wpos(s) ==> forall|w: int, q: Set<int>| u < w < u2 ==> !#[trigger] wanted(s, r, w, q) }
#[verifier::opaque]
pub open spec fn opened(s: Sh, r: real, u: int, ids: Seq<int>, cs: Seq<Set<int>>) -> bool { forall|q: Set<int>| #[trigger] wanted(s, r, u, q) ==> pend(ids, cs, q) }
// j is taken off the top: what is lost is too light
pub proof fn lemma_e_drop(s: Sh, r: real, u: int, ids: Seq<int>, cs: Seq<Set<int>>, j: int, k: int)
    requires s.ok(), 1 <= u < s.n(), ids_ok(s, u, ids), cs_ok(s, u, ids, cs), sep(ids, cs), cs.len() > 0, cs.last().contains(j),
        wpos(s) ==> wof(s, u, ids.to_set()) + wt(s, u, j) + wof(s, u, near(s, u, cs, j, k)) < r,
    ensures ({
        let cs2 = cs.update(cs.len() - 1, cs.last().remove(j));
        same_pend(s, r, u, ids, cs, ids, cs2) && cs_ok(s, u, ids, cs2) && sep(ids, cs2)
    }),
{
    reveal(same_pend);
    lemma_p_cut(s, u, ids, cs, j, k);
    let cs2 = cs.update(cs.len() - 1, cs.last().remove(j));
    let p = ids.to_set().insert(j); let c = near(s, u, cs, j, k);
    lemma_w_insert(s, u, ids.to_set(), j, s.v[u].N);
    assert forall|q: Set<int>| #[trigger] wanted(s, r, u, q) implies (pend(ids, cs2, q) ==> pend(ids, cs, q)) && (wpos(s) && pend(ids, cs, q) ==> pend(ids, cs2, q)) by {
        if wpos(s) && pend(ids, cs, q) && !pend(ids, cs2, q) { lemma_mid_w(s, u, p, c, q); }
    }
}
pub proof fn lemma_e_report(s: Sh, r: real, u: int, ids: Seq<int>, cs: Seq<Set<int>>, j: int)
    requires s.ok(), 1 <= u < s.n(), ids_ok(s, u, ids), cs_ok(s, u, ids, cs), sep(ids, cs), cs.len() > 0, cs.last().contains(j), cs.len() == ids.len(),
        wof(s, u, ids.to_set()) + wt(s, u, j) >= r,
    ensures ({
        let cs2 = cs.update(cs.len() - 1, cs.last().remove(j)); let p = ids.to_set().insert(j);
        &&& cs_ok(s, u, ids, cs2) && sep(ids, cs2) && wanted(s, r, u, p) && pend(ids, cs, p) && !pend(ids, cs2, p)
        &&& forall|q: Set<int>| #[trigger] wanted(s, r, u, q) && pend(ids, cs2, q) ==> pend(ids, cs, q)
        &&& forall|q: Set<int>| #[trigger] wanted(s, r, u, q) && pend(ids, cs, q) && !pend(ids, cs2, q) ==> p.subset_of(q)
        &&& p.remove(j) =~= ids.to_set()
    }),
{
    lemma_p_cut(s, u, ids, cs, j, 0);
    lemma_ids_len(s, u, ids);
    lemma_w_insert(s, u, ids.to_set(), j, s.v[u].N);
    let cs2 = cs.update(cs.len() - 1, cs.last().remove(j)); let p = ids.to_set().insert(j);
    assert forall|q: Set<int>| #[trigger] wanted(s, r, u, q) && pend(ids, cs, q) && !pend(ids, cs2, q) implies p.subset_of(q) by {
        assert(mid(p, near(s, u, cs, j, 0), q));
    }
}
pub proof fn lemma_e_deeper(s: Sh, r: real, u: int, ids: Seq<int>, cs: Seq<Set<int>>, j: int, k: int)
    requires s.ok(), 1 <= u < s.n(), ids_ok(s, u, ids), cs_ok(s, u, ids, cs), sep(ids, cs), cs.len() > 0, cs.last().contains(j), k >= s.v[u].N,
    ensures ({
        let c2 = cs.last().remove(j);
        let d = near(s, u, cs, j, k);
        let cs2 = cs.update(cs.len() - 1, c2).push(d);
        let ids2 = ids.push(j);
        &&& ids_ok(s, u, ids2) && cs_ok(s, u, ids2, cs2) && sep(ids2, cs2) && same_pend(s, r, u, ids, cs, ids2, cs2) && d.len() <= c2.len()
        &&& wof(s, u, ids2.to_set()) == wof(s, u, ids.to_set()) + wt(s, u, j)
    }),
{
    lemma_p_deeper(s, u, ids, cs, j, k);
    lemma_p_cut(s, u, ids, cs, j, k);
    lemma_push_set(ids, j);
    lemma_w_insert(s, u, ids.to_set(), j, s.v[u].N);
    reveal(same_pend); reveal(all_pend);
}
pub proof fn lemma_e_up(s: Sh, r: real, u: int, ids: Seq<int>, cs: Seq<Set<int>>)
    requires s.ok(), 1 <= u < s.n(), ids_ok(s, u, ids), cs_ok(s, u, ids, cs), sep(ids, cs), cs.len() > 0, cs.len() == ids.len(), cs.last().len() == 0,
        wpos(s) && ids.len() >= 2 ==> wof(s, u, ids.to_set()) < r,
    ensures ids_ok(s, u, ids.drop_last()), cs_ok(s, u, ids.drop_last(), cs.drop_last()), sep(ids.drop_last(), cs.drop_last()),
        same_pend(s, r, u, ids, cs, ids.drop_last(), cs.drop_last()), meas(cs.drop_last()) < meas(cs),
        ids.drop_last().to_set() =~= ids.to_set().remove(ids.last()), 0 <= ids.last() < s.v[u].N,
        wof(s, u, ids.drop_last().to_set()) == wof(s, u, ids.to_set()) - wt(s, u, ids.last()), ids.to_set().contains(ids.last()),
        ids.len() > 1 ==> rset0(s, u, s.v[u].N).contains(ids.last()), wpos(s) ==> wt(s, u, ids.last()) > 0real,
{
    reveal(same_pend); reveal(ids_ok);
    lemma_p_up(s, u, ids, cs);
    lemma_ids_len(s, u, ids);
    assert(0 <= ids.last() < s.v[u].N);
    assert(ids.drop_last().to_set() =~= ids.to_set().remove(ids.last()));
    lemma_w_remove(s, u, ids.to_set(), ids.last(), s.v[u].N);
    if ids.len() > 1 { assert(ids[0] != ids[ids.len() - 1]); assert(s.rin(u, ids[ids.len() - 1])); }
    if wpos(s) { lemma_wt_pos(s, u, ids.last()); }
    assert forall|q: Set<int>| #[trigger] wanted(s, r, u, q) implies (pend(ids.drop_last(), cs.drop_last(), q) ==> pend(ids, cs, q)) && (wpos(s) && pend(ids, cs, q) ==> pend(ids.drop_last(), cs.drop_last(), q)) by {
        assert(s.rclq(u, q));
    }
}
// the potentials on the stack bound what the candidates weigh
#[verifier::opaque]
pub open spec fn pots(sts: Seq<NWSearchState>, s: Sh, u: int, cs: Seq<Set<int>>) -> bool {
    wpos(s) ==> forall|t: int| 0 <= t < sts.len() ==> (#[trigger] sts[t]).potential@ >= wof(s, u, cs[t])
}
proof fn lemma_pots(sts: Seq<NWSearchState>, sts2: Seq<NWSearchState>, s: Sh, u: int, cs: Seq<Set<int>>, cs2: Seq<Set<int>>)
    requires pots(sts, s, u, cs), sts2.len() <= sts.len(), sts.len() == cs.len(), sts2.len() == cs2.len(), s.ok(), 1 <= u < s.n(),
        forall|t: int| 0 <= t < sts2.len() ==> (#[trigger] sts2[t]).potential@ >= sts[t].potential@ && cs2[t].subset_of(cs[t]),
    ensures pots(sts2, s, u, cs2),
{
    reveal(pots);
    if wpos(s) {
        assert forall|t: int| 0 <= t < sts2.len() implies (#[trigger] sts2[t]).potential@ >= wof(s, u, cs2[t]) by {
            assert(sts[t].potential@ >= wof(s, u, cs[t]));
            assert(sts2[t].potential@ >= sts[t].potential@ && cs2[t].subset_of(cs[t]));
            assert forall|k: int| #[trigger] cs2[t].contains(k) implies cs[t].contains(k) by {}
            lemma_w_sub(s, u, cs2[t], cs[t], s.v[u].N);
        }
    }
}
proof fn lemma_pots_push(sts: Seq<NWSearchState>, x: NWSearchState, s: Sh, u: int, cs: Seq<Set<int>>, d: Set<int>)
    requires pots(sts, s, u, cs), sts.len() == cs.len(), wpos(s) ==> x.potential@ >= wof(s, u, d),
    ensures pots(sts.push(x), s, u, cs.push(d)),
{
    reveal(pots);
    if wpos(s) {
        let sts2 = sts.push(x); let cs2 = cs.push(d);
        assert forall|t: int| 0 <= t < sts2.len() implies (#[trigger] sts2[t]).potential@ >= wof(s, u, cs2[t]) by {
            if t < sts.len() { assert(sts2[t] == sts[t] && cs2[t] == cs[t]); }
        }
    }
}
// the potential on top, with j taken off
proof fn lemma_pots_top(sts: Seq<NWSearchState>, s: Sh, u: int, cs: Seq<Set<int>>, j: int)
    requires pots(sts, s, u, cs), sts.len() == cs.len(), cs.len() > 0, cs.last().contains(j), 0 <= j < s.v[u].N,
    ensures wpos(s) ==> sts.last().potential@ >= wof(s, u, cs.last().remove(j)) + wt(s, u, j),
{
    reveal(pots);
    lemma_w_remove(s, u, cs.last(), j, s.v[u].N);
    if wpos(s) { assert(sts[sts.len() - 1].potential@ >= wof(s, u, cs[sts.len() - 1])); }
}
// the weight of what the scan has ruled out
proof fn lemma_wfar_start(s: Sh, u: int, c: Set<int>, j: int, k: int)
    requires forall|x: int| #[trigger] c.contains(x) ==> k <= x,
    ensures wof(s, u, far(s, u, c, j, k)) == 0real,
{
    lemma_w_empty(s, u, far(s, u, c, j, k), s.v[u].N);
}
proof fn lemma_wfar_step(s: Sh, u: int, c: Set<int>, j: int, k: int)
    requires 0 <= k < s.v[u].N,
    ensures wof(s, u, far(s, u, c, j, k + 1)) == wof(s, u, far(s, u, c, j, k)) + (if c.contains(k) && !s.adj(s.nb(u, j), s.nb(u, k)) { wt(s, u, k) } else { 0real }),
{
    let f = far(s, u, c, j, k); let f2 = far(s, u, c, j, k + 1);
    if c.contains(k) && !s.adj(s.nb(u, j), s.nb(u, k)) {
        assert(f2 =~= f.insert(k));
        lemma_w_insert(s, u, f, k, s.v[u].N);
    } else { assert(f2 =~= f); }
}
proof fn lemma_wfar_end(s: Sh, u: int, cs: Seq<Set<int>>, j: int, k: int)
    requires s.ok(), 0 <= u < s.n(), cs.len() > 0,
    ensures wof(s, u, near(s, u, cs, j, k)) == wof(s, u, cs.last().remove(j)) - wof(s, u, far(s, u, cs.last().remove(j), j, k)),
{
    let c2 = cs.last().remove(j);
    lemma_w_union(s, u, far(s, u, c2, j, k), near(s, u, cs, j, k), c2, s.v[u].N);
}
// room for every stack that can come up
pub open spec fn slots(l: int, bb: int) -> int { (l + 1) * bb }
#[verifier::opaque]
pub open spec fn emem(len: int, s: Sh, u: int, bb: int) -> bool { forall|q: Set<int>| #[trigger] s.rclq(u, q) ==> slots(q.len() as int, bb) <= len }
proof fn lemma_emem_start(g: nwgraph, u: int, bb: int)
    requires g.gst(), 1 <= u < g.n_vert, bb >= 0,
    ensures emem((g.max_depth + 1) * bb, g.sh(), u, bb),
{
    reveal(emem);
    assert forall|q: Set<int>| #[trigger] g.sh().rclq(u, q) implies slots(q.len() as int, bb) <= (g.max_depth + 1) * bb by {
        let l = q.len() as int; let d = g.max_depth as int;
        assert((l + 1) * bb <= (d + 1) * bb) by(nonlinear_arith) requires l <= d, bb >= 0;
    }
}
proof fn lemma_emem(len: int, s: Sh, u: int, bb: int, ids: Seq<int>)
    requires emem(len, s, u, bb), ids_ok(s, u, ids), ids.len() > 0, s.ok(), 0 <= u < s.n(),
    ensures (ids.len() + 1) * bb <= len, ids.len() * bb + bb == (ids.len() + 1) * bb, s.rclq(u, ids.to_set()), ids.to_set().len() == ids.len(),
{
    reveal(emem);
    assert(s.vok(u));
    lemma_ids_len(s, u, ids);
    assert(slots(ids.to_set().len() as int, bb) <= len);
    let l = ids.len() as int;
    assert(l * bb + bb == (l + 1) * bb) by(nonlinear_arith);
}

// The state of an enumerator between calls
impl NWCliqueEnumerator {
    pub open spec fn ids(self) -> Seq<int> { Seq::new(self.states@.len(), |i: int| self.states@[i].id as int) }
    pub open spec fn cs(self) -> Seq<Set<int>> { Seq::new(self.states@.len(), |i: int| self.states@[i].cand.set_in(self.memory)) }
    pub open spec fn ezero(self) -> bool { forall|k: int| self.memory_used <= k < self.memory@.len() ==> #[trigger] self.memory@[k] == 0 }
    pub open spec fn r(self) -> real { self.REQUIRED_WEIGHT@ }
    // clique q below root u (indices into u's list) is still to be visited
    pub open spec fn todo(self, s: Sh, u: int, q: Set<int>) -> bool { etodo(s, self.r(), self.cur as int, self.ids(), self.cs(), u, q) }
    // no search in progress
    pub open spec fn idle(self, s: Sh) -> bool {
        self.states@.len() == 0 && self.ezero() && (self.cur < s.n() ==> self.memory_used == self.request_size && self.memory_used <= self.memory@.len())
    }
    pub open spec fn ewf(self, s: Sh) -> bool {
        &&& self.cur <= s.n() && self.memory@.len() < 0x1000_0000_0000
        &&& self.states@.len() == 0 ==> self.idle(s)
        &&& self.states@.len() > 0 ==> estk(self, s, self.states@[0].res.lo() == 0, self.ids(), self.cs(), self.states@[0].res)
    }
}
pub open spec fn estk(d: NWCliqueEnumerator, s: Sh, sw: bool, ids: Seq<int>, cs: Seq<Set<int>>, rg: graphBits) -> bool {
    let u = d.cur as int; let n = s.v[u].N;
    &&& 1 <= u < s.n() && stk(d.states@, d.memory, 0, n, sw, ids, cs, rg) && ids_ok(s, u, ids) && cs_ok(s, u, ids, cs) && sep(ids, cs)
    &&& d.states@.len() == ids.len() && ids.len() == cs.len() && d.request_size == blen(n)
    &&& d.memory_used == (ids.len() + 1) * blen(n) && emem(d.memory@.len() as int, s, u, blen(n)) && d.memory@.len() < 0x1000_0000_0000
    &&& d.ezero() && noted(s, u, d.weights@, n) && pots(d.states@, s, u, cs)
    &&& ids.len() > 0 ==> d.clique_weight@ == wof(s, u, ids.to_set())
    &&& wpos(s) && ids.len() >= 2 ==> wof(s, u, ids.to_set()) < d.r()
}
// the stack determines the ghost sequences
proof fn lemma_stk_views(d: NWCliqueEnumerator, s: Sh, sw: bool, ids: Seq<int>, cs: Seq<Set<int>>, rg: graphBits)
    requires estk(d, s, sw, ids, cs, rg), s.ok(),
    ensures ids =~= d.ids(), cs =~= d.cs(), ids.len() > 0 ==> d.ewf(s) && (d.states@[0].res.lo() == 0) == sw && d.states@[0].res == rg,
{
    reveal(stk);
    let n = s.v[d.cur as int].N;
    assert(s.vok(d.cur as int));
    assert forall|i: int| 0 <= i < ids.len() implies ids[i] == d.ids()[i] && cs[i] == d.cs()[i] by {
        assert(st_ok(d.states@[i], d.memory, ids[i], cs[i], cand_lo(0, blen(n), sw, i), n, rg));
    }
    assert(ids =~= d.ids() && cs =~= d.cs());
    if ids.len() > 0 { assert(st_ok(d.states@[0], d.memory, ids[0], cs[0], cand_lo(0, blen(n), sw, 0), n, rg)); }
}
pub open spec fn eroot(d: NWCliqueEnumerator, s: Sh, x: NWSearchState, sw: bool, j: int) -> bool {
    let u = d.cur as int; let n = s.v[u].N; let bb = blen(n); let m = d.memory;
    &&& d.request_size == bb && d.memory_used == 2 * bb && 2 * bb <= m@.len() && m@.len() < 0x1000_0000_0000 && d.ezero() && d.states@.len() == 0
    &&& emem(m@.len() as int, s, u, bb) && noted(s, u, d.weights@, j)
    &&& x.id == s.v[u].spos && x.start_at == 0
    &&& x.res.wf(m) && x.res.lo() == res_lo(0, bb, sw) && x.res.n() == n && x.res.set_in(m) == set![s.v[u].spos]
    &&& x.cand.wf(m) && x.cand.lo() == cand_lo(0, bb, sw, 0) && x.cand.n() == n && x.cand.set_in(m) == rset0(s, u, j)
    &&& d.clique_potential@ == wof(s, u, rset0(s, u, j))
}
proof fn lemma_er_step(d0: NWCliqueEnumerator, d: NWCliqueEnumerator, s: Sh, x: NWSearchState, sw: bool, j: int)
    requires s.ok(), 1 <= d0.cur < s.n(), 0 <= j < s.v[d0.cur as int].N, eroot(d0, s, x, sw, j),
        d == (NWCliqueEnumerator { memory: d.memory, clique_potential: d.clique_potential, weights: d.weights, j: d.j, vert: d.vert, ..d0 }),
        ({
            let u = d0.cur as int;
            let c = s.rin(u, j) && j != s.v[u].spos;
            &&& c ==> only_block(d0.memory, d.memory, x.cand) && x.cand.wf(d.memory) && x.cand.set_in(d.memory) =~= x.cand.set_in(d0.memory).insert(j)
                && d.clique_potential@ == d0.clique_potential@ + wt(s, u, j)
                && d.weights@.len() == d0.weights@.len() && d.weights@[j]@ == wt(s, u, j) && (forall|k: int| 0 <= k < d0.weights@.len() && k != j ==> #[trigger] d.weights@[k] == d0.weights@[k])
            &&& !c ==> d.memory == d0.memory && d.clique_potential@ == d0.clique_potential@ && d.weights@ == d0.weights@
        }),
    ensures eroot(d, s, x, sw, j + 1),
{
    let u = d0.cur as int;
    assert(s.vok(u));
    lemma_rset0(s, u, j);
    lemma_noted(s, u, d0.weights@, d.weights@, j);
    if s.rin(u, j) && j != s.v[u].spos { lemma_w_insert(s, u, rset0(s, u, j), j, s.v[u].N); }
    if d.memory != d0.memory { lemma_frame(d0.memory, d.memory, x.res, x.cand.lo(), x.cand.hi()); }
}
proof fn lemma_room2(md: int, bb: int)
    requires md >= 1, bb >= 1,
    ensures 2 * bb <= (md + 1) * bb, md + 1 <= (md + 1) * bb, 2 * (md + 1) * bb == (md + 1) * bb + (md + 1) * bb,
{
    assert(2 * bb <= (md + 1) * bb && md + 1 <= (md + 1) * bb) by(nonlinear_arith) requires md >= 1, bb >= 1;
    assert(2 * (md + 1) * bb == (md + 1) * bb + (md + 1) * bb) by(nonlinear_arith);
}

@fn NWCliqueEnumerator::new_d(weight)
@ensures
    r.REQUIRED_WEIGHT == weight, r.cur == 0, r.states@.len() == 0, r.memory_used == 0, r.request_size == 0, r.memory@.len() == 0,
    forall|s: Sh| s.ok() ==> #[trigger] r.ewf(s),
    forall|s: Sh, u: int, q: Set<int>| s.ok() ==> #[trigger] r.todo(s, u, q) == wanted(s, weight@, u, q),

@fn NWCliqueEnumerator::load_memory(N)
@requires
    old(self).memory_used < old(self).memory@.len(), old(self).memory_used + N <= old(self).memory@.len() < 0x1000_0000_0000,
@ensures
    r.off == old(self).memory_used, r.gen == old(self).memory.gen,
    *final(self) == (NWCliqueEnumerator { memory_used: (old(self).memory_used + N) as u64, ..*old(self) }),

@fn NWCliqueEnumerator::clear_memory(N)
@locals u64 i
@requires
    N <= old(self).memory_used <= old(self).memory@.len() < 0x1000_0000_0000,
@ensures
    final(self).memory.gen == old(self).memory.gen, final(self).memory_used == old(self).memory_used - N,
    same_outside(old(self).memory@, final(self).memory@, old(self).memory_used - N, old(self).memory_used as int),
    forall|k: int| final(self).memory_used <= k < old(self).memory_used ==> #[trigger] final(self).memory@[k] == 0,
    *final(self) == (NWCliqueEnumerator { memory_used: final(self).memory_used, memory: final(self).memory, ..*old(self) }),
@loop 1
@invariant
    i <= N, N <= old(self).memory_used <= old(self).memory@.len() < 0x1000_0000_0000,
    self.memory_used == old(self).memory_used - N, self.memory.gen == old(self).memory.gen,
    same_outside(old(self).memory@, self.memory@, old(self).memory_used - N, old(self).memory_used as int),
    forall|k: int| self.memory_used <= k < self.memory_used + i ==> #[trigger] self.memory@[k] == 0,
    *self == (NWCliqueEnumerator { memory_used: self.memory_used, memory: self.memory, ..*old(self) }),
@loop_decreases
    N - i

@fn NWCliqueEnumerator::load_vertex(G)
@locals NWSearchState x
@requires
    G.gst(), 1 <= old(self).cur < G.n_vert, old(self).states@.len() == 0, old(self).memory_used == 0, old(self).ezero(), old(self).weights@.len() >= G.max_neighbors,
@ensures
    final(self).cur == old(self).cur, final(self).REQUIRED_WEIGHT == old(self).REQUIRED_WEIGHT, final(self).weights@.len() == old(self).weights@.len(),
    r ==> final(self).states@.len() == 1 && final(self).ewf(G.sh())
        && forall|q: Set<int>| #[trigger] wanted(G.sh(), old(self).r(), old(self).cur as int, q) ==> pend(final(self).ids(), final(self).cs(), q),
    !r ==> final(self).states@.len() == 0 && final(self).memory_used == 0 && final(self).ezero() && final(self).memory@.len() < 0x1000_0000_0000
        && (wpos(G.sh()) ==> forall|q: Set<int>| !#[trigger] wanted(G.sh(), old(self).r(), old(self).cur as int, q)),
@loop 1
@invariant
    G.gst(), u == self.cur, 1 <= u < G.n_vert, s == G.sh(), n == s.v[u].N, G.vertices@[u].N == n, G.vertices@[u].spos == s.v[u].spos, u < G.vertices@.len(),
    self.cur == old(self).cur, self.REQUIRED_WEIGHT == old(self).REQUIRED_WEIGHT, self.weights@.len() == old(self).weights@.len(), self.weights@.len() >= n,
    self.j <= G.vertices@[u].spos < n, eroot(*self, s, x, sw, self.j as int),
@loop_decreases
    G.vertices@[u].spos - self.j
@loop 2
@invariant
    G.gst(), u == self.cur, 1 <= u < G.n_vert, s == G.sh(), n == s.v[u].N, G.vertices@[u].N == n, G.vertices@[u].spos == s.v[u].spos, u < G.vertices@.len(),
    self.cur == old(self).cur, self.REQUIRED_WEIGHT == old(self).REQUIRED_WEIGHT, self.weights@.len() == old(self).weights@.len(), self.weights@.len() >= n,
    s.v[u].spos < self.j <= n, eroot(*self, s, x, sw, self.j as int),
@loop_decreases
    n - self.j
@at begin
    let ghost s = G.sh(); let ghost u = self.cur as int; let ghost n = s.v[u].N; let ghost mut sw = true;
    proof { lemma_root(*G, u); lemma_room2(G.max_depth as int, blen(n)); lemma_emem_start(*G, u, blen(n)); assert(G.vlay(u)); }
@at before /NWSearchState::new_wvertex_p_p/
    let ghost m0 = self.memory;
@at loop 1 before
    proof {
        sw = x.res.lo() == 0;
        lemma_zero_block(m0, x.res);
        lemma_zero_block(m0, x.cand);
        lemma_frame(m0, self.memory, x.cand, x.res.lo(), x.res.hi());
        lemma_rset0(s, u, 0);
        assert(rset0(s, u, 0) =~= Set::<int>::empty());
        lemma_w_empty(s, u, rset0(s, u, 0), n);
        assert(x.res.set_in(self.memory) =~= set![s.v[u].spos]);
    }
@at loop 1 begin
    let ghost d1 = *self;
    proof { lemma_root(*G, u); lemma_count_step(*G, u, self.j as int); }
@at loop 1 body_end
    proof { lemma_er_step(d1, *self, s, x, sw, self.j as int); }
@at loop 1 after
    proof { lemma_er_step(*self, *self, s, x, sw, self.j as int); }
@at loop 2 begin
    let ghost d1 = *self;
    proof { lemma_root(*G, u); lemma_count_step(*G, u, self.j as int); }
@at loop 2 body_end
    proof { lemma_er_step(d1, *self, s, x, sw, self.j as int); }
@at loop 2 after
    proof {
        lemma_root(*G, u); lemma_w_root(s, u);
        if wpos(s) { assert forall|q: Set<int>| #[trigger] s.rclq(u, q) implies wof(s, u, q) <= self.clique_potential@ + G.vertices@[u].weight@ by { lemma_w_most(s, u, q); } }
    }
@at end
    proof {
        let ids = seq![s.v[u].spos]; let cs = seq![rset0(s, u, n)];
        lemma_p_start(s, u); lemma_w_root(s, u);
        lemma_stk_one(self.states@[0], self.memory, 0, n, sw, s.v[u].spos, rset0(s, u, n));
        assert(self.states@ =~= seq![self.states@[0]]);
        assert(ids.to_set() =~= set![s.v[u].spos]);
        assert(pots(self.states@, s, u, cs)) by { reveal(pots); }
        assert((ids.len() + 1) * blen(n) == 2 * blen(n));
        lemma_stk_views(*self, s, sw, ids, cs, self.states@[0].res);
    }

@fn NWCliqueEnumerator::process_vertex(G)
@requires
    G.gst(), old(self).cur < G.n_vert, old(self).states@.len() == 0, old(self).memory_used == 0, old(self).ezero(),
    old(self).memory@.len() < 0x1000_0000_0000, old(self).weights@.len() >= G.max_neighbors,
@ensures
    old(self).cur < final(self).cur <= G.n_vert, final(self).REQUIRED_WEIGHT == old(self).REQUIRED_WEIGHT, final(self).ewf(G.sh()), final(self).weights@.len() == old(self).weights@.len(),
    skipped(G.sh(), old(self).r(), old(self).cur as int, final(self).cur as int),
    final(self).cur == G.n_vert || final(self).states@.len() == 1,
    final(self).states@.len() > 0 ==> opened(G.sh(), old(self).r(), final(self).cur as int, final(self).ids(), final(self).cs()),
@loop 1
@invariant
    G.gst(), old(self).cur < self.cur <= G.n_vert, self.REQUIRED_WEIGHT == old(self).REQUIRED_WEIGHT, G.n_vert == G.vertices@.len(), G.n_vert == G.sh().n(),
    skipped(G.sh(), old(self).r(), old(self).cur as int, self.cur as int), self.weights@.len() == old(self).weights@.len(), self.weights@.len() >= G.max_neighbors,
@invariant_except_break
    self.states@.len() == 0, self.memory_used == 0, self.ezero(), self.memory@.len() < 0x1000_0000_0000,
@loop_ensures
    old(self).cur < self.cur <= G.n_vert, self.REQUIRED_WEIGHT == old(self).REQUIRED_WEIGHT, self.ewf(G.sh()), self.weights@.len() == old(self).weights@.len(),
    skipped(G.sh(), old(self).r(), old(self).cur as int, self.cur as int),
    self.cur == G.n_vert || self.states@.len() == 1,
    self.states@.len() > 0 ==> opened(G.sh(), old(self).r(), self.cur as int, self.ids(), self.cs()),
@loop_decreases
    G.n_vert - self.cur
@at begin
    proof { reveal(skipped); assert(G.sh().n() == G.vertices@.len()); }
@at loop 1 begin
    proof { reveal(skipped); reveal(opened); lemma_root(*G, self.cur as int); assert(self.r() == old(self).r()); assert(G.vmcs(self.cur as int)); }

@lib
// q was stored for vertex u, nothing else changed
proof fn lemma_put(g0: nwgraph, g: nwgraph, u: int, q: Set<int>)
    requires g0.gwf(), 1 <= u < g0.n_vert, g == (nwgraph { edge_bits: g.edge_bits, ..g0 }),
        only_block(g0.edge_bits, g.edge_bits, g0.vertices@[u].bits), g.vertices@[u].bits.clean(g.edge_bits), g.store_of(u) == q,
        g0.sh().rclq(u, q), q.len() > 0,
    ensures g.gwf(), g.sh() == g0.sh(), forall|w: int| 0 <= w < g0.n_vert && w != u ==> #[trigger] g.store_of(w) == g0.store_of(w),
{
    lemma_root(g0, u);
    assert(g.sh() == g0.sh());
    assert forall|w: int| 0 <= w < g.n_vert && w != u implies g.vsto(w) && #[trigger] g.store_of(w) == g0.store_of(w) by {
        assert(g0.vlay(w) && g0.vlay(u) && g0.vsto(w) && g0.sh().vok(w) && g0.sh().v[w] == vsh(g0.vertices@[w]));
        if w < u { assert(g0.vertices@[w].ebo + blen(g0.vertices@[w].N as int) <= g0.vertices@[u].ebo); }
        else { assert(g0.vertices@[u].ebo + blen(g0.vertices@[u].N as int) <= g0.vertices@[w].ebo); }
        lemma_frame(g0.edge_bits, g.edge_bits, g0.vertices@[w].bits, g0.vertices@[u].bits.lo(), g0.vertices@[u].bits.hi());
    }
    assert forall|w: int| 0 <= w < g.n_vert implies #[trigger] g.vlay(w) by { assert(g0.vlay(w)); }
    assert forall|w: int| 0 <= w < g.n_vert implies #[trigger] g.vsto(w) by { assert(w == u || g.store_of(w) == g0.store_of(w)); }
    assert forall|w: int| 0 <= w < g.n_vert implies #[trigger] g.vdeg(w) by { assert(g0.vdeg(w)); }
    assert forall|w: int| 1 <= w < g.n_vert implies #[trigger] g.vmcs(w) by { assert(g0.vmcs(w)); }
}
proof fn lemma_same_pend(s: Sh, r: real, c0: int, i0: Seq<int>, cs0: Seq<Set<int>>, u: int, ids: Seq<int>, cs: Seq<Set<int>>, ids2: Seq<int>, cs2: Seq<Set<int>>)
    requires same_todo(s, r, c0, i0, cs0, u, ids, cs), same_pend(s, r, u, ids, cs, ids2, cs2),
    ensures same_todo(s, r, c0, i0, cs0, u, ids2, cs2),
{ reveal(same_todo); reveal(same_pend); }
proof fn lemma_todo_refl(s: Sh, r: real, c0: int, i0: Seq<int>, cs0: Seq<Set<int>>)
    ensures same_todo(s, r, c0, i0, cs0, c0, i0, cs0),
{ reveal(same_todo); }
// the stack below u is empty: on to the next root
proof fn lemma_todo_next(s: Sh, r: real, c0: int, i0: Seq<int>, cs0: Seq<Set<int>>, u: int, ids: Seq<int>, cs: Seq<Set<int>>, u2: int, ids2: Seq<int>, cs2: Seq<Set<int>>)
    requires same_todo(s, r, c0, i0, cs0, u, ids, cs), ids.len() == 0, u < u2 <= s.n(),
        skipped(s, r, u, u2),
        u2 == s.n() || opened(s, r, u2, ids2, cs2),
    ensures same_todo(s, r, c0, i0, cs0, u2, ids2, cs2),
{ reveal(same_todo); reveal(skipped); reveal(opened); }
proof fn lemma_todo_end(s: Sh, r: real, c0: int, i0: Seq<int>, cs0: Seq<Set<int>>, u: int, ids: Seq<int>, cs: Seq<Set<int>>)
    requires same_todo(s, r, c0, i0, cs0, u, ids, cs), u >= s.n(), wpos(s),
    ensures forall|w: int, q: Set<int>| !#[trigger] etodo(s, r, c0, i0, cs0, w, q),
{
    reveal(same_todo);
    assert forall|w: int, q: Set<int>| !#[trigger] etodo(s, r, c0, i0, cs0, w, q) by { if wanted(s, r, w, q) { assert(!etodo(s, r, u, ids, cs, w, q)); } }
}
proof fn lemma_todo_report(s: Sh, r: real, c0: int, i0: Seq<int>, cs0: Seq<Set<int>>, u: int, ids: Seq<int>, cs: Seq<Set<int>>, cs2: Seq<Set<int>>, p: Set<int>)
    requires same_todo(s, r, c0, i0, cs0, u, ids, cs), wanted(s, r, u, p), pend(ids, cs, p), !pend(ids, cs2, p),
        forall|q: Set<int>| #[trigger] wanted(s, r, u, q) && pend(ids, cs2, q) ==> pend(ids, cs, q),
        forall|q: Set<int>| #[trigger] wanted(s, r, u, q) && pend(ids, cs, q) && !pend(ids, cs2, q) ==> p.subset_of(q),
    ensures etodo(s, r, c0, i0, cs0, u, p), !etodo(s, r, u, ids, cs2, u, p),
        forall|w: int, q: Set<int>| #[trigger] etodo(s, r, u, ids, cs2, w, q) ==> etodo(s, r, c0, i0, cs0, w, q),
        wpos(s) ==> forall|w: int, q: Set<int>| #[trigger] etodo(s, r, c0, i0, cs0, w, q) && !etodo(s, r, u, ids, cs2, w, q) ==> w == u && p.subset_of(q),
{
    reveal(same_todo);
    assert(etodo(s, r, u, ids, cs, u, p));
    assert forall|w: int, q: Set<int>| #[trigger] etodo(s, r, u, ids, cs2, w, q) implies etodo(s, r, c0, i0, cs0, w, q) by {
        assert(wanted(s, r, w, q)); assert(etodo(s, r, u, ids, cs, w, q));
    }
    if wpos(s) {
        assert forall|w: int, q: Set<int>| #[trigger] etodo(s, r, c0, i0, cs0, w, q) && !etodo(s, r, u, ids, cs2, w, q) implies w == u && p.subset_of(q) by {
            assert(wanted(s, r, w, q)); assert(etodo(s, r, u, ids, cs, w, q));
        }
    }
}
pub open spec fn etop(d: NWCliqueEnumerator, cs: Seq<Set<int>>, n: int, ix: u64) -> bool {
    &&& d.states@.len() == cs.len() && cs.len() > 0 && ix == cs.len() - 1
    &&& d.j <= n && forall|k: int| #[trigger] cs.last().contains(k) ==> d.j <= k < n
    &&& d.candidates_left <= n && d.states@[ix as int].start_at <= d.j
}
// the top state or the shared result changed in place
proof fn lemma_estk_top(d0: NWCliqueEnumerator, d: NWCliqueEnumerator, s: Sh, sw: bool, ids: Seq<int>, cs: Seq<Set<int>>, c2: Set<int>, rg: graphBits)
    requires estk(d0, s, sw, ids, cs, rg), d0.states@.len() > 0, s.ok(), c2.subset_of(cs.last()),
        d == (NWCliqueEnumerator { states: d.states, memory: d.memory, candidates_left: d.candidates_left, clique_potential: d.clique_potential, cand_potential: d.cand_potential,
            j: d.j, k: d.k, vert: d.vert, ans: d.ans, to_remove: d.to_remove, ..d0 }),
        d.states@.len() == d0.states@.len(),
        ({
            let t = d0.states@.len() - 1; let c = d0.states@[t].cand; let n = s.v[d0.cur as int].N; let x = d0.states@[t]; let y = d.states@[t];
            &&& forall|i: int| 0 <= i < t ==> #[trigger] d.states@[i] == d0.states@[i]
            &&& y.id == x.id && y.res == x.res && y.cand == x.cand && y.potential@ == x.potential@
            &&& only_block(d0.memory, d.memory, c) && c.wf(d.memory) && c.set_in(d.memory) == c2
            &&& y.start_at <= n && forall|k: int| #[trigger] c2.contains(k) ==> k >= y.start_at
        }),
        cs_ok(s, d0.cur as int, ids, cs.update(cs.len() - 1, c2)), sep(ids, cs.update(cs.len() - 1, c2)),
    ensures estk(d, s, sw, ids, cs.update(cs.len() - 1, c2), rg),
{
    let u = d0.cur as int; let n = s.v[u].N; let cs2 = cs.update(cs.len() - 1, c2);
    assert(s.vok(d0.cur as int));
    lemma_top(d0.states@, d0.memory, 0, n, sw, ids, cs, rg);
    lemma_stk_top(d0.states@, d.states@, d0.memory, d.memory, 0, n, sw, ids, cs, c2, rg);
    assert forall|i: int| 0 <= i < d.states@.len() implies (#[trigger] d.states@[i]).potential@ >= d0.states@[i].potential@ && cs2[i].subset_of(cs[i]) by {
        if i < d0.states@.len() - 1 { assert(d.states@[i] == d0.states@[i]); }
    }
    lemma_pots(d0.states@, d.states@, s, u, cs, cs2);
}

@fn NWCliqueEnumerator::process_graph(G)
@locals NWSearchState cur_state, NWSearchState future_state
@requires
    old(G).gwf(), old(self).ewf(old(G).sh()),
@ensures
    final(G).gwf(), final(G).sh() == old(G).sh(), *final(G) == (nwgraph { edge_bits: final(G).edge_bits, ..*old(G) }),
    final(self).REQUIRED_WEIGHT == old(self).REQUIRED_WEIGHT, final(self).ewf(old(G).sh()),
    r == final(self).cur, r < final(G).n_vert ==> r >= 1, r <= final(G).n_vert,
    // one of the cliques still to be visited; it is then no longer one of them, and only cliques that contain it are passed over
    r < final(G).n_vert ==> old(self).todo(old(G).sh(), r as int, final(G).store_of(r as int))
        && !final(self).todo(old(G).sh(), r as int, final(G).store_of(r as int))
        && (forall|u: int, q: Set<int>| #[trigger] final(self).todo(old(G).sh(), u, q) ==> old(self).todo(old(G).sh(), u, q))
        && (wpos(old(G).sh()) ==> forall|u: int, q: Set<int>| #[trigger] old(self).todo(old(G).sh(), u, q) && !final(self).todo(old(G).sh(), u, q)
            ==> u == r && final(G).store_of(r as int).subset_of(q))
        && (forall|w: int| 0 <= w < old(G).n_vert && w != r ==> #[trigger] final(G).store_of(w) == old(G).store_of(w)),
    // none is left
    r >= final(G).n_vert ==> *final(G) == *old(G)
        && (wpos(old(G).sh()) ==> forall|u: int, q: Set<int>| !#[trigger] old(self).todo(old(G).sh(), u, q))
        && (forall|u: int, q: Set<int>| !#[trigger] final(self).todo(old(G).sh(), u, q)),
@loop 1
@invariant
    g0 == *old(G), c0 == old(self).cur, i0 == old(self).ids(), cs0 == old(self).cs(), R == old(self).r(),
    g0.gwf(), *G == g0, s == g0.sh(), s.ok(), s.n() == G.n_vert, self.REQUIRED_WEIGHT == old(self).REQUIRED_WEIGHT, R == self.r(),
    self.cur <= G.n_vert, self.memory@.len() < 0x1000_0000_0000, self.weights@.len() >= G.max_neighbors,
    same_todo(s, R, c0, i0, cs0, self.cur as int, ids, cs), ids.len() == self.states@.len(),
    self.states@.len() == 0 ==> self.idle(s),
    self.states@.len() > 0 ==> estk(*self, s, sw, ids, cs, rg),
@loop_decreases
    G.n_vert - self.cur, meas(cs), self.states@.len()
@loop 2
@invariant
    g0 == *old(G), c0 == old(self).cur, i0 == old(self).ids(), cs0 == old(self).cs(), R == old(self).r(),
    g0.gwf(), *G == g0, s == g0.sh(), s.ok(), s.n() == G.n_vert, G.vertices@.len() == s.n(), self.REQUIRED_WEIGHT == old(self).REQUIRED_WEIGHT, R == self.r(),
    u == self.cur, 1 <= u < s.n(), n == s.v[u].N, G.vertices@[u].N == n, self.cur <= G.n_vert, self.weights@.len() >= G.max_neighbors,
    same_todo(s, R, c0, i0, cs0, u, ids, cs), estk(*self, s, sw, ids, cs, rg),
@invariant_except_break
    meas(cs) <= meas0, etop(*self, cs, n, ix_cur_state),
@loop_ensures
    same_todo(s, R, c0, i0, cs0, u, ids, cs), estk(*self, s, sw, ids, cs, rg), *G == g0, self.REQUIRED_WEIGHT == old(self).REQUIRED_WEIGHT, u == self.cur, self.weights@.len() >= G.max_neighbors,
    self.j >= n ==> meas(cs) <= meas0 && etop(*self, cs, n, ix_cur_state),
    self.j < n ==> meas(cs) < meas0 && ids.len() > 0,
@loop_decreases
    n - self.j
@loop 3
@invariant
    s.ok(), s == G.sh(), s.n() == G.vertices@.len(), u == self.cur, 1 <= u < s.n(), n == s.v[u].N, G.vertices@[u].N == n, n <= 0x1_0000_0000, R == self.r(),
    *self == (NWCliqueEnumerator { k: self.k, ans: self.ans, to_remove: self.to_remove, clique_potential: self.clique_potential, cand_potential: self.cand_potential,
        candidates_left: self.candidates_left, ..d3 }),
    ix_cur_state < self.states@.len(), self.states@[ix_cur_state as int].cand.wf(self.memory), self.states@[ix_cur_state as int].cand.set_in(self.memory) == c2,
    self.states@[ix_cur_state as int].cand.n() == n, self.candidates_left == c2.len() - self.to_remove@.len(), c2.len() <= n,
    self.vert == s.nb(u, self.j as int), scan(s, u, c2, self.j as int, self.k as int, s.v[s.nb(u, self.j as int)].spos, self.to_remove@),
    noted(s, u, self.weights@, n), forall|x: int| #[trigger] c2.contains(x) ==> rset0(s, u, n).contains(x), rset0(s, u, n).contains(self.j as int),
    self.clique_weight@ == w0, w0 == wof(s, u, ids.to_set()),
    wpos(s) ==> pp >= wof(s, u, c2) + wt(s, u, self.j as int) && wt(s, u, self.j as int) > 0real, p3 == pp || p3 == pp - wt(s, u, self.j as int),
    self.cand_potential@ == p3 - wof(s, u, far(s, u, c2, self.j as int, self.k as int)),
    wpos(s) ==> self.clique_potential@ >= w0 + wt(s, u, self.j as int) + wof(s, u, c2) - wof(s, u, far(s, u, c2, self.j as int, self.k as int)),
@loop_decreases
    n - self.k
@loop 4
@invariant
    it_k <= self.to_remove@.len(), future_state == fs, *self == (NWCliqueEnumerator { memory: self.memory, ..d4 }), self.memory.gen == d4.memory.gen,
    same_outside(d4.memory@, self.memory@, fs.cand.lo(), fs.cand.hi()), fs.cand.wf(self.memory),
    fs.cand.set_in(self.memory) == minus(c2, self.to_remove@, it_k as int),
    forall|i: int| 0 <= i < self.to_remove@.len() ==> #[trigger] self.to_remove@[i] < fs.cand.n(),
@loop_decreases
    self.to_remove@.len() - it_k
@at begin
    let ghost g0 = *G; let ghost s = G.sh(); let ghost R = self.r(); let ghost c0 = self.cur as int; let ghost i0 = self.ids(); let ghost cs0 = self.cs();
    let ghost mut sw = true; let ghost mut ids = self.ids(); let ghost mut cs = self.cs(); let ghost mut rg = arbitrary::<graphBits>();
    let ghost mut meas0 = 0nat; let ghost mut c2 = Set::<int>::empty(); let ghost mut d3 = *self; let ghost mut d4 = *self; let ghost mut d2 = *self;
    let ghost mut fs = arbitrary::<NWSearchState>(); let ghost mut w0 = 0real; let ghost mut pp = 0real; let ghost mut p3 = 0real; let ghost z0 = *self;
    proof { assert(G.sh().n() == G.vertices@.len()); lemma_todo_refl(s, R, c0, i0, cs0); if self.states@.len() > 0 { rg = self.states@[0].res; sw = rg.lo() == 0; } }
@at loop 1 before
    proof {
        if self.states@.len() > 0 {
            let u = self.cur as int; let n = s.v[u].N;
            lemma_root(g0, u); assert(g0.vlay(u));
            assert(noted(s, u, self.weights@, n)) by {
                assert forall|k: int| #[trigger] rset0(s, u, n).contains(k) implies self.weights@[k]@ == wt(s, u, k) by { assert(z0.weights@[k]@ == wt(s, u, k)); assert(self.weights@[k] == z0.weights@[k]); }
            }
        }
    }
@at loop 1 begin
    let ghost d1 = *self; let ghost ids1 = ids; let ghost cs1 = cs; let ghost u = self.cur as int; let ghost n = s.v[u].N;
    proof { if self.states@.len() > 0 { lemma_root(g0, u); lemma_top(self.states@, self.memory, 0, n, sw, ids, cs, rg); meas0 = meas(cs); } }
@at before /self\.process_vertex\(G\)/
    proof { assert(self.states@ =~= d1.states@); }
@at after /self\.process_vertex\(G\)/
    proof {
        ids = self.ids(); cs = self.cs();
        if self.states@.len() > 0 { rg = self.states@[0].res; sw = rg.lo() == 0; }
        lemma_todo_next(s, R, c0, i0, cs0, u, ids1, cs1, self.cur as int, ids, cs);
    }
@at loop 2 before
    proof {
        let t = ids.len() - 1;
        assert(cs.update(t, cs.last()) =~= cs);
        lemma_estk_top(d1, *self, s, sw, ids, cs, cs.last(), rg);
        assert forall|k: int| #[trigger] cs.last().contains(k) implies self.j <= k < n by { assert(self.states@[t].cand.set_in(self.memory).contains(k)); }
    }
@at loop 2 begin
    let ghost e2 = *self; let ghost cs2 = cs;
    proof {
        lemma_top(self.states@, self.memory, 0, n, sw, ids, cs, rg); lemma_root(g0, u);
        c2 = cs.last().remove(self.j as int);
        w0 = self.clique_weight@;
        lemma_emem(self.memory@.len() as int, s, u, blen(n), ids);
        lemma_cand_in(s, u, ids, cs);
        if cs.last().contains(self.j as int) {
            lemma_remove_top(s, u, ids, cs, self.j as int);
            lemma_push_ids(s, u, ids, self.j as int);
            lemma_p_cut(s, u, ids, cs, self.j as int, n);
            lemma_emem(self.memory@.len() as int, s, u, blen(n), ids.push(self.j as int));
            lemma_pots_top(self.states@, s, u, cs, self.j as int);
            if wpos(s) { lemma_wt_pos(s, u, self.j as int); }
        }
        assert(0 <= s.nb(u, self.j as int) < s.n()) by { assert(s.vok(u)); }
        assert(s.v[s.nb(u, self.j as int)] == vsh(g0.vertices@[s.nb(u, self.j as int)]));
    }
@at loop 3 before
    proof {
        assert forall|k: int| #[trigger] c2.contains(k) implies self.j + 1 <= k < n by { assert(cs.last().contains(k)); }
        lemma_scan_start(s, u, c2, self.j as int, self.k as int);
        lemma_wfar_start(s, u, c2, self.j as int, self.k as int);
        assert(self.to_remove@ =~= Seq::<u64>::empty());
        d3 = *self; pp = e2.states@.last().potential@; p3 = self.cand_potential@;
    }
@at loop 3 begin
    let ghost e3 = *self;
    proof {
        lemma_wfar_step(s, u, c2, self.j as int, self.k as int);
        if c2.contains(self.k as int) { lemma_scan_pre(*G, s, u, c2, self.j as int, self.k as int, s.v[s.nb(u, self.j as int)].spos, self.to_remove@); }
    }
@at loop 3 body_end
    proof {
        if c2.contains(self.k as int) {
            lemma_scan_step(*G, s, u, c2, self.j as int, self.k as int, s.v[s.nb(u, self.j as int)].spos, e3.to_remove@, 0, self.k + 1, self.to_remove@);
        } else {
            lemma_scan_skip(s, u, c2, self.j as int, self.k as int, s.v[s.nb(u, self.j as int)].spos, self.to_remove@);
        }
    }
@at loop 3 after
    proof {
        let t = ids.len() - 1;
        lemma_meas_push(cs2, c2, c2);
        lemma_wfar_end(s, u, cs2, self.j as int, self.k as int);
        cs = cs2.update(t, c2);
        if self.clique_potential@ < R {
            lemma_e_drop(s, R, u, ids, cs2, self.j as int, self.k as int);
            lemma_same_pend(s, R, c0, i0, cs0, u, ids, cs2, ids, cs);
        } else if w0 + wt(s, u, self.j as int) >= R {
            lemma_e_report(s, R, u, ids, cs2, self.j as int);
            lemma_todo_report(s, R, c0, i0, cs0, u, ids, cs2, cs, ids.to_set().insert(self.j as int));
        } else {
            lemma_e_deeper(s, R, u, ids, cs2, self.j as int, self.k as int);
        }
        lemma_p_cut(s, u, ids, cs2, self.j as int, n);
        lemma_estk_top(e2, *self, s, sw, ids, cs2, c2, rg);
        lemma_top(self.states@, self.memory, 0, n, sw, ids, cs, rg);
        d2 = *self;
    }
@at after /\.res\.set\(self\.j, /
    let ghost da = *self;
    proof { lemma_root(g0, u); }
@at before /return self\.cur;/ 1
    proof {
        let p = ids.to_set().insert(self.j as int);
        lemma_put(g0, *G, u, p);
        assert(self.states@ =~= d2.states@);
        lemma_stk_keep(self.states@, d2.memory, self.memory, 0, n, sw, ids, cs, rg, 0, 0);
        lemma_stk_views(*self, s, sw, ids, cs, rg);
        assert(G.store_of(self.cur as int) == p && self.ids() == ids && self.cs() == cs);
        assert forall|w: int, q: Set<int>| #[trigger] self.todo(s, w, q) implies old(self).todo(s, w, q) by { assert(etodo(s, R, u, ids, cs, w, q)); }
        if wpos(s) {
            assert forall|w: int, q: Set<int>| #[trigger] old(self).todo(s, w, q) && !self.todo(s, w, q) implies w == u && p.subset_of(q) by {
                assert(etodo(s, R, c0, i0, cs0, w, q) && !etodo(s, R, u, ids, cs, w, q));
            }
        }
    }
@at loop 4 before
    proof {
        d4 = *self; fs = future_state;
        lemma_minus(c2, self.to_remove@, 0);
        assert forall|i: int| 0 <= i < self.to_remove@.len() implies #[trigger] self.to_remove@[i] < fs.cand.n() by {
            assert(far(s, u, c2, self.j as int, self.k as int).contains(self.to_remove@[i] as int));
        }
    }
@at loop 4 begin
    proof { lemma_minus(c2, self.to_remove@, it_k as int); }
@at loop 4 after
    proof {
        lemma_minus_far(s, u, c2, self.j as int, self.k as int, s.v[s.nb(u, self.j as int)].spos, self.to_remove@);
        lemma_frame(d4.memory, self.memory, rg, fs.cand.lo(), fs.cand.hi());
        let d = minus(c2, self.to_remove@, self.to_remove@.len() as int);
        assert(d =~= near(s, u, cs2, self.j as int, self.k as int));
        lemma_stk_push(d2.states@, future_state, d2.memory, self.memory, 0, n, sw, ids, cs, d, rg);
        lemma_pots_push(d2.states@, future_state, s, u, cs, d);
        lemma_meas_push(cs2, c2, d);
        lemma_same_pend(s, R, c0, i0, cs0, u, ids, cs2, ids.push(self.j as int), cs.push(d));
        ids = ids.push(self.j as int); cs = cs.push(d);
    }
@at loop 2 after
    let ghost d7 = *self;
    proof {
        if self.j >= n {
            lemma_root(g0, u);
            lemma_top(self.states@, self.memory, 0, n, sw, ids, cs, rg);
            assert(cs.last() =~= Set::<int>::empty());
            lemma_e_up(s, R, u, ids, cs);
            lemma_same_pend(s, R, c0, i0, cs0, u, ids, cs, ids.drop_last(), cs.drop_last());
            lemma_slots(blen(n), ids.len() - 1, ids.len() as int);
            lemma_emem(self.memory@.len() as int, s, u, blen(n), ids);
            assert(s.vok(u));
        }
    }
@at before /self\.clique_weight = dbl_sub/
    let ghost d8 = *self;
@at after /self\.clear_memory\(self\.request_size\)/ 2
    proof {
        lemma_stk_pop(d7.states@, d7.memory, d8.memory, self.memory, 0, n, sw, ids, cs, rg);
        assert(self.ezero()); assert(self.memory_used <= self.memory@.len());
        assert(ids.len() == 1 ==> self.memory_used == self.request_size && self.states@.len() == 0) by { let l = ids.len() as int; assert(l == 1 ==> (l + 1) * blen(n) == 2 * blen(n)); }
        lemma_pots(d7.states@, self.states@, s, u, cs, cs.drop_last());
        assert(ids.len() > 1 ==> self.clique_weight@ == wof(s, u, ids.drop_last().to_set())) by { if ids.len() > 1 { assert(rset0(s, u, n).contains(ids.last())); } }
        ids = ids.drop_last(); cs = cs.drop_last();
        assert(self.states@.len() == 0 ==> self.idle(s));
    }
@at loop 1 after
    proof { if wpos(s) { lemma_todo_end(s, R, c0, i0, cs0, self.cur as int, ids, cs); } }
