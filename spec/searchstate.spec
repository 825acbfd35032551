@lib
// what a handle represents depends on its block only
pub proof fn lemma_same(a: Mem, b: Mem, g: graphBits)
    requires a.gen == b.gen, a@.len() == b@.len(), g.wfp(a), forall|k: int| g.lo() <= k < g.hi() ==> #[trigger] b@[k] == a@[k],
    ensures g.wfp(b), g.set_in(b) == g.set_in(a), g.clean(a) ==> g.clean(b),
{
    assert forall|i: int| 0 <= i < 64 * blen(g.n()) implies #[trigger] bat(b@, g.lo(), i) == bat(a@, g.lo(), i) by {
        assert(g.lo() <= g.lo() + i / 64 < g.hi());
        assert(b@[g.lo() + i / 64] == a@[g.lo() + i / 64]);
    }
    assert(g.n() <= 64 * blen(g.n()));
    assert(g.set_in(b) =~= g.set_in(a));
    if g.clean(a) {
        assert forall|i: int| g.valid_len <= i < 64 * blen(g.valid_len as int) implies !#[trigger] bat(b@, g.data.off as int, i) by {
            assert(bat(b@, g.lo(), i) == bat(a@, g.lo(), i));
        }
    }
}
pub proof fn lemma_frame(a: Mem, b: Mem, g: graphBits, lo: int, hi: int)
    requires a.gen == b.gen, same_outside(a@, b@, lo, hi), g.wfp(a), g.hi() <= lo || hi <= g.lo(),
    ensures g.wfp(b), g.set_in(b) == g.set_in(a), g.clean(a) ==> g.clean(b),
{ lemma_same(a, b, g); }
// a block of zeros is the empty set
pub proof fn lemma_zero_block(m: Mem, g: graphBits)
    requires g.wfp(m), forall|k: int| g.lo() <= k < g.hi() ==> #[trigger] m@[k] == 0,
    ensures g.clean(m), g.set_in(m) == Set::<int>::empty(),
{
    broadcast use bit_lemmas;
    assert forall|i: int| 0 <= i < 64 * blen(g.n()) implies !#[trigger] bat(m@, g.lo(), i) by {
        assert(g.lo() <= g.lo() + i / 64 < g.hi());
        assert(m@[g.lo() + i / 64] == 0);
    }
    assert(g.n() <= 64 * blen(g.n()));
    assert(g.set_in(m) =~= Set::<int>::empty());
}

@fn SearchState::new_vertex_p_p(ver, res_ptr, cand_ptr)
@requires
    res_ptr.gen@ == old(mem).gen@, cand_ptr.gen@ == old(mem).gen@, ver.spos < ver.N < 0x1_0000_0000_0000, old(mem)@.len() < 0x1_0000_0000_0000,
    res_ptr.off + blen(ver.N as int) <= old(mem)@.len(), cand_ptr.off + blen(ver.N as int) <= old(mem)@.len(),
@ensures
    r.id == ver.spos, r.start_at == 0, r.res.data == res_ptr, r.cand.data == cand_ptr, r.res.valid_len == ver.N, r.cand.valid_len == ver.N,
    r.res.wfp(*final(mem)), r.cand.wfp(*final(mem)), r.res.wfp(*old(mem)), r.cand.wfp(*old(mem)),
    only_block(*old(mem), *final(mem), r.res),
    r.res.set_in(*final(mem)) =~= r.res.set_in(*old(mem)).insert(ver.spos as int),
    r.res.clean(*old(mem)) ==> r.res.clean(*final(mem)),

@fn SearchState::new_u(id)
@ensures
    r.id == id, r.start_at == id,

@fn SearchState::refer_from(cand_ptr, prev_cand, prev_res)
@requires
    prev_cand.wfp(*old(mem)), prev_res.wfp(*old(mem)), cand_ptr.gen@ == old(mem).gen@, old(self).id < prev_res.valid_len,
    cand_ptr.off + blen(prev_cand.n()) <= old(mem)@.len(),
    prev_cand.hi() <= cand_ptr.off, prev_res.hi() <= cand_ptr.off || cand_ptr.off + blen(prev_cand.n()) <= prev_res.lo(),
    prev_cand.hi() <= prev_res.lo() || prev_res.hi() <= prev_cand.lo(),
@ensures
    final(self).id == old(self).id, final(self).start_at == old(self).start_at, final(self).res == *prev_res,
    final(self).cand.data == cand_ptr, final(self).cand.valid_len == prev_cand.valid_len, final(self).cand.wfp(*final(mem)),
    final(self).cand.set_in(*final(mem)) =~= prev_cand.set_in(*old(mem)), prev_cand.clean(*old(mem)) ==> final(self).cand.clean(*final(mem)),
    prev_res.wfp(*final(mem)), prev_res.clean(*old(mem)) ==> prev_res.clean(*final(mem)),
    prev_res.set_in(*final(mem)) =~= prev_res.set_in(*old(mem)).insert(old(self).id as int),
    final(mem).gen == old(mem).gen, final(mem)@.len() == old(mem)@.len(),
    forall|k: int| 0 <= k < old(mem)@.len() && !(prev_res.lo() <= k < prev_res.hi()) && !(cand_ptr.off <= k < cand_ptr.off + blen(prev_cand.n()))
        ==> #[trigger] final(mem)@[k] == old(mem)@[k],
@at begin
    let ghost m0 = *mem;
@at before /self.res.set/
    let ghost m1 = *mem;
    proof { lemma_frame(m0, m1, *prev_res, self.cand.lo(), self.cand.hi()); }
@at end
    proof { lemma_frame(m1, *mem, self.cand, prev_res.lo(), prev_res.hi()); }

@lib
// The stack of a search: the block of the shared result and one block of candidates per state, from word b on.
pub open spec fn res_lo(b: int, bb: int, sw: bool) -> int { if sw { b } else { b + bb } }
pub open spec fn cand_lo(b: int, bb: int, sw: bool, t: int) -> int { if t == 0 { if sw { b + bb } else { b } } else { b + (t + 1) * bb } }
pub open spec fn st_ok(x: SearchState, m: Mem, id: int, c: Set<int>, lo: int, n: int, rg: graphBits) -> bool {
    &&& x.id == id && x.res == rg && x.cand.wf(m) && x.cand.lo() == lo && x.cand.n() == n && x.cand.set_in(m) == c
    &&& x.start_at <= n && forall|k: int| #[trigger] c.contains(k) ==> k >= x.start_at
}
pub open spec fn low(sts: Seq<SearchState>, m: Mem, b: int, n: int, sw: bool, ids: Seq<int>, cs: Seq<Set<int>>, rg: graphBits, t: int) -> bool {
    forall|i: int| 0 <= i < t ==> st_ok(#[trigger] sts[i], m, ids[i], cs[i], cand_lo(b, blen(n), sw, i), n, rg)
}
#[verifier::opaque]
pub open spec fn stk(sts: Seq<SearchState>, m: Mem, b: int, n: int, sw: bool, ids: Seq<int>, cs: Seq<Set<int>>, rg: graphBits) -> bool {
    &&& sts.len() == ids.len() && ids.len() == cs.len() && n >= 1 && b >= 0
    &&& low(sts, m, b, n, sw, ids, cs, rg, sts.len() as int)
    &&& sts.len() > 0 ==> rg.wf(m) && rg.lo() == res_lo(b, blen(n), sw) && rg.n() == n && rg.set_in(m) == ids.to_set()
}
proof fn lemma_slots(bb: int, i: int, t: int)
    requires 0 <= i < t, bb >= 0,
    ensures (i + 1) * bb + bb == (i + 2) * bb, (i + 2) * bb <= (t + 1) * bb, (t + 1) * bb == t * bb + bb, (i + 1) * bb >= bb,
        (t + 2) * bb == (t + 1) * bb + bb, (i + 1) * bb >= 0, i >= 1 ==> (i + 1) * bb >= 2 * bb, (t + 1) * bb >= 2 * bb,
{
    assert((i + 1) * bb + bb == (i + 2) * bb && (i + 2) * bb <= (t + 1) * bb && (t + 1) * bb == t * bb + bb && (i + 1) * bb >= bb
        && (t + 2) * bb == (t + 1) * bb + bb && (t + 1) * bb >= 2 * bb) by(nonlinear_arith) requires 0 <= i < t, bb >= 0;
    if i >= 1 { assert((i + 1) * bb >= 2 * bb) by(nonlinear_arith) requires i >= 1, bb >= 0; }
}
// the states below depth t do not notice changes elsewhere
proof fn lemma_low(sts: Seq<SearchState>, sts2: Seq<SearchState>, m: Mem, m2: Mem, b: int, n: int, sw: bool, ids: Seq<int>, ids2: Seq<int>,
        cs: Seq<Set<int>>, cs2: Seq<Set<int>>, rg: graphBits, t: int, lo: int, hi: int)
    requires low(sts, m, b, n, sw, ids, cs, rg, t), m.gen == m2.gen, m@.len() == m2@.len(), n >= 1,
        forall|k: int| 0 <= k < m@.len() && !(lo <= k < hi) && !(res_lo(b, blen(n), sw) <= k < res_lo(b, blen(n), sw) + blen(n)) ==> #[trigger] m2@[k] == m@[k],
        forall|i: int| 0 <= i < t ==> #[trigger] sts2[i] == sts[i], forall|i: int| 0 <= i < t ==> #[trigger] ids2[i] == ids[i],
        forall|i: int| 0 <= i < t ==> #[trigger] cs2[i] == cs[i],
        t <= 0 || hi <= b || lo >= b + (t + 1) * blen(n) || (lo >= res_lo(b, blen(n), sw) && hi <= res_lo(b, blen(n), sw) + blen(n)),
    ensures low(sts2, m2, b, n, sw, ids2, cs2, rg, t),
{
    let bb = blen(n);
    assert forall|i: int| 0 <= i < t implies st_ok(#[trigger] sts2[i], m2, ids2[i], cs2[i], cand_lo(b, bb, sw, i), n, rg) by {
        assert(st_ok(sts[i], m, ids[i], cs[i], cand_lo(b, bb, sw, i), n, rg));
        assert(sts2[i] == sts[i] && ids2[i] == ids[i] && cs2[i] == cs[i]);
        lemma_slots(bb, i, t);
        let g = sts[i].cand;
        assert(g.hi() == cand_lo(b, bb, sw, i) + bb);
        assert forall|k: int| g.lo() <= k < g.hi() implies #[trigger] m2@[k] == m@[k] by {}
        lemma_same(m, m2, g);
    }
}
// the state on top
proof fn lemma_top(sts: Seq<SearchState>, m: Mem, b: int, n: int, sw: bool, ids: Seq<int>, cs: Seq<Set<int>>, rg: graphBits)
    requires stk(sts, m, b, n, sw, ids, cs, rg), sts.len() > 0,
    ensures ({
        let t = sts.len() - 1; let bb = blen(n);
        &&& sts.len() == ids.len() && ids.len() == cs.len()
        &&& st_ok(sts[t], m, ids[t], cs[t], cand_lo(b, bb, sw, t), n, rg) && ids.last() == ids[t] && cs.last() == cs[t]
        &&& rg.wf(m) && rg.lo() == res_lo(b, bb, sw) && rg.n() == n && rg.set_in(m) == ids.to_set()
        &&& b <= rg.lo() && rg.hi() <= b + (t + 2) * bb && b <= sts[t].cand.lo() && sts[t].cand.hi() <= b + (t + 2) * bb
        &&& rg.hi() <= sts[t].cand.lo() || sts[t].cand.hi() <= rg.lo()
        &&& bb >= 1 && rg.hi() <= b + 2 * bb && (t + 2) * bb >= 2 * bb && b >= 0
    }),
{
    reveal(stk);
    let t = sts.len() - 1; let bb = blen(n);
    assert(st_ok(sts[t], m, ids[t], cs[t], cand_lo(b, bb, sw, t), n, rg));
    lemma_slots(bb, 0, t + 1);
    lemma_slots(bb, t, t + 1);
    if t > 0 { lemma_slots(bb, 0, t); }
}
// the top state was replaced, or its candidates or start changed
proof fn lemma_stk_top(sts: Seq<SearchState>, sts2: Seq<SearchState>, m: Mem, m2: Mem, b: int, n: int, sw: bool, ids: Seq<int>,
        cs: Seq<Set<int>>, c2: Set<int>, rg: graphBits)
    requires stk(sts, m, b, n, sw, ids, cs, rg), sts.len() > 0, sts2.len() == sts.len(),
        sts2 == sts.update(sts.len() - 1, SearchState { start_at: sts2[sts.len() - 1].start_at, ..sts[sts.len() - 1] }),
        only_block(m, m2, sts[sts.len() - 1].cand), sts[sts.len() - 1].cand.wf(m2), sts[sts.len() - 1].cand.set_in(m2) == c2,
        sts2[sts.len() - 1].start_at <= n, forall|k: int| #[trigger] c2.contains(k) ==> k >= sts2[sts.len() - 1].start_at,
    ensures stk(sts2, m2, b, n, sw, ids, cs.update(cs.len() - 1, c2), rg),
{
    lemma_top(sts, m, b, n, sw, ids, cs, rg);
    reveal(stk);
    let t = sts.len() - 1;
    let g = sts[t].cand;
    let cs2 = cs.update(t, c2);
    if t > 0 { lemma_slots(blen(n), 0, t); lemma_slots(blen(n), 0, t + 1); }
    lemma_low(sts, sts2, m, m2, b, n, sw, ids, ids, cs, cs2, rg, t, g.lo(), g.hi());
    lemma_frame(m, m2, rg, g.lo(), g.hi());
    assert(sts2[t].cand == g && sts2[t].id == sts[t].id && sts2[t].res == sts[t].res);
}
// memory below the stack changed, or the shared result was changed and restored
proof fn lemma_stk_keep(sts: Seq<SearchState>, m: Mem, m2: Mem, b: int, n: int, sw: bool, ids: Seq<int>, cs: Seq<Set<int>>, rg: graphBits, lo: int, hi: int)
    requires stk(sts, m, b, n, sw, ids, cs, rg), m.gen == m2.gen, m@.len() == m2@.len(), hi <= b, sts.len() > 0,
        forall|k: int| 0 <= k < m@.len() && !(lo <= k < hi) && !(rg.lo() <= k < rg.hi()) ==> #[trigger] m2@[k] == m@[k],
        rg.wf(m2), rg.set_in(m2) == ids.to_set(),
    ensures stk(sts, m2, b, n, sw, ids, cs, rg),
{
    lemma_top(sts, m, b, n, sw, ids, cs, rg);
    reveal(stk);
    lemma_low(sts, sts, m, m2, b, n, sw, ids, ids, cs, cs, rg, sts.len() as int, lo, hi);
}
// a state x was pushed: its candidates lie in a new block, the shared result grew by x.id
proof fn lemma_stk_push(sts: Seq<SearchState>, x: SearchState, m: Mem, m2: Mem, b: int, n: int, sw: bool, ids: Seq<int>, cs: Seq<Set<int>>, d: Set<int>, rg: graphBits)
    requires stk(sts, m, b, n, sw, ids, cs, rg), sts.len() > 0, m.gen == m2.gen, m@.len() == m2@.len(),
        forall|k: int| 0 <= k < m@.len() && !(rg.lo() <= k < rg.hi()) && !(x.cand.lo() <= k < x.cand.hi()) ==> #[trigger] m2@[k] == m@[k],
        st_ok(x, m2, x.id as int, d, b + (sts.len() + 1) * blen(n), n, rg),
        rg.wf(m2), rg.set_in(m2) == ids.to_set().insert(x.id as int),
    ensures stk(sts.push(x), m2, b, n, sw, ids.push(x.id as int), cs.push(d), rg),
{
    lemma_top(sts, m, b, n, sw, ids, cs, rg);
    let l = sts.len() as int; let bb = blen(n);
    lemma_slots(bb, 0, l);
    lemma_push_set(ids, x.id as int);
    reveal(stk);
    lemma_low(sts, sts.push(x), m, m2, b, n, sw, ids, ids.push(x.id as int), cs, cs.push(d), rg, l, x.cand.lo(), x.cand.hi());
}
// the top state was removed and its block given back
proof fn lemma_stk_pop(sts: Seq<SearchState>, m: Mem, m1: Mem, m2: Mem, b: int, n: int, sw: bool, ids: Seq<int>, cs: Seq<Set<int>>, rg: graphBits)
    requires stk(sts, m, b, n, sw, ids, cs, rg), sts.len() > 0, only_block(m, m1, rg), rg.wf(m1), rg.set_in(m1) == ids.drop_last().to_set(),
        m1.gen == m2.gen, same_outside(m1@, m2@, b + sts.len() * blen(n), b + (sts.len() + 1) * blen(n)),
    ensures stk(sts.drop_last(), m2, b, n, sw, ids.drop_last(), cs.drop_last(), rg),
{
    lemma_top(sts, m, b, n, sw, ids, cs, rg);
    let t = sts.len() - 1; let bb = blen(n);
    let lo = b + (t + 1) * bb;
    reveal(stk);
    lemma_low(sts, sts, m, m1, b, n, sw, ids, ids, cs, cs, rg, t, rg.lo(), rg.hi());
    if t > 0 {
        lemma_slots(bb, 0, t);
        lemma_low(sts, sts.drop_last(), m1, m2, b, n, sw, ids, ids.drop_last(), cs, cs.drop_last(), rg, t, lo, lo + bb);
        lemma_frame(m1, m2, rg, lo, lo + bb);
    }
}
proof fn lemma_stk_one(x: SearchState, m: Mem, b: int, n: int, sw: bool, id: int, c: Set<int>)
    requires st_ok(x, m, id, c, cand_lo(b, blen(n), sw, 0), n, x.res), n >= 1, b >= 0,
        x.res.wf(m), x.res.lo() == res_lo(b, blen(n), sw), x.res.n() == n, x.res.set_in(m) == set![id],
    ensures stk(seq![x], m, b, n, sw, seq![id], seq![c], x.res),
{
    reveal(stk);
    assert(seq![id].to_set() =~= set![id]) by {
        assert forall|y: int| #[trigger] seq![id].to_set().contains(y) == set![id].contains(y) by { assert(seq![id][0] == id); }
    }
}
// the result of next() in terms of the set
proof fn lemma_next_set(g: graphBits, m: Mem, i: int, r: int)
    requires next_is(g, m, i, r), 0 <= i, forall|k: int| #[trigger] g.set_in(m).contains(k) ==> k >= i,
    ensures r <= g.n(), forall|k: int| #[trigger] g.set_in(m).contains(k) ==> k >= r, r < g.n() ==> g.set_in(m).contains(r), r >= g.n() ==> g.set_in(m).len() == 0,
{
    assert forall|k: int| #[trigger] g.set_in(m).contains(k) implies k >= r by { assert(bat(m@, g.lo(), k)); }
    if r >= g.n() { assert(g.set_in(m) =~= Set::empty()); }
}
