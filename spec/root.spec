@lib
// the root state while its candidates are collected
pub open spec fn rooti(g0: graph, g: graph, x: SearchState, u: int, b: int, sw: bool, j: int, pot: int) -> bool {
    let s = g0.sh(); let n = s.v[u].N; let bb = blen(n); let m = g.edge_bits;
    &&& gsrch(g0, g, u) && g.search_cur == b + 2 * bb && b == g0.search_cur
    &&& x.id == s.v[u].spos && x.start_at == 0
    &&& x.res.wf(m) && x.res.lo() == res_lo(b, bb, sw) && x.res.n() == n && x.res.set_in(m) == set![s.v[u].spos]
    &&& x.cand.wf(m) && x.cand.lo() == cand_lo(b, bb, sw, 0) && x.cand.n() == n && x.cand.set_in(m) == rset0(s, u, j)
    &&& pot == 1 + rset0(s, u, j).len() && pot <= 1 + j
}
pub proof fn lemma_root_set(g0: graph, ga: graph, gb: graph, x: SearchState, u: int, b: int, sw: bool, j: int, pot: int)
    requires rooti(g0, ga, x, u, b, sw, j, pot), gb == (graph { edge_bits: gb.edge_bits, ..ga }), 0 <= j,
        only_block(ga.edge_bits, gb.edge_bits, x.cand), x.cand.wf(gb.edge_bits), x.cand.set_in(gb.edge_bits) =~= x.cand.set_in(ga.edge_bits).insert(j),
        g0.sh().rin(u, j) && j != g0.sh().v[u].spos,
    ensures rooti(g0, gb, x, u, b, sw, j + 1, pot + 1),
{
    let s = g0.sh();
    lemma_gs_zero(g0, ga, u);
    lemma_root(g0, u);
    lemma_rset0(s, u, j);
    lemma_frame(ga.edge_bits, gb.edge_bits, x.res, x.cand.lo(), x.cand.hi());
    lemma_gs_mem(g0, ga, gb, u, x.cand.lo(), x.cand.hi());
}
pub proof fn lemma_root_skip(g0: graph, g: graph, x: SearchState, u: int, b: int, sw: bool, j: int, pot: int)
    requires rooti(g0, g, x, u, b, sw, j, pot), 0 <= j, !g0.sh().rin(u, j) || j == g0.sh().v[u].spos,
    ensures rooti(g0, g, x, u, b, sw, j + 1, pot),
{ lemma_rset0(g0.sh(), u, j); }
pub proof fn lemma_root_init(g0: graph, ga: graph, gb: graph, x: SearchState, u: int, b: int, sw: bool)
    requires g0.gwf(), 1 <= u < g0.n_vert, b == g0.search_cur, ga == (graph { search_cur: ga.search_cur, ..g0 }),
        gb == (graph { edge_bits: gb.edge_bits, ..ga }), ga.search_cur == b + 2 * blen(g0.sh().v[u].N), ga.search_cur <= ga.edge_bits@.len(),
        x.id == g0.sh().v[u].spos, x.start_at == 0, x.res.wfp(ga.edge_bits), x.cand.wfp(ga.edge_bits), x.res.wfp(gb.edge_bits), x.cand.wfp(gb.edge_bits),
        x.res.n() == g0.sh().v[u].N, x.cand.n() == g0.sh().v[u].N,
        x.res.lo() == res_lo(b, blen(x.res.n()), sw), x.cand.lo() == cand_lo(b, blen(x.res.n()), sw, 0),
        only_block(ga.edge_bits, gb.edge_bits, x.res), x.res.set_in(gb.edge_bits) =~= x.res.set_in(ga.edge_bits).insert(g0.sh().v[u].spos),
        x.res.clean(ga.edge_bits) ==> x.res.clean(gb.edge_bits),
    ensures rooti(g0, gb, x, u, b, sw, 0, 1),
{
    let s = g0.sh();
    lemma_root(g0, u);
    lemma_gs_start(g0, u);
    lemma_gs_mem(g0, g0, ga, u, b, b);
    lemma_zero_block(ga.edge_bits, x.res);
    lemma_zero_block(ga.edge_bits, x.cand);
    lemma_frame(ga.edge_bits, gb.edge_bits, x.cand, x.res.lo(), x.res.hi());
    lemma_gs_mem(g0, ga, gb, u, x.res.lo(), x.res.hi());
    lemma_rset0(s, u, 0);
    assert(x.res.set_in(gb.edge_bits) =~= set![s.v[u].spos]);
}

// a scan of u's list behind position j, along the list of j's vertex: everything before start in that list is smaller than entry k
pub open spec fn scn(s: Sh, u: int, j: int, k: int, start: int) -> bool {
    let v = s.nb(u, j);
    &&& s.ok() && 0 <= u < s.n() && 0 <= j < s.v[u].N && 0 <= start < s.v[v].N && j < k <= s.v[u].N
    &&& k < s.v[u].N ==> forall|p: int| 0 <= p < start ==> #[trigger] s.nb(v, p) < s.nb(u, k)
}
pub proof fn lemma_scn_start(s: Sh, u: int, j: int, k: int)
    requires s.ok(), 0 <= u < s.n(), 0 <= j < s.v[u].N, j < k <= s.v[u].N,
    ensures scn(s, u, j, k, s.v[s.nb(u, j)].spos), 0 <= s.nb(u, j) < s.n(),
{
    assert(s.vok(u));
    let v = s.nb(u, j);
    assert(0 <= v < s.n());
    assert(s.vok(v));
    if k < s.v[u].N {
        assert(s.nb(u, j) < s.nb(u, k));
        assert forall|p: int| 0 <= p < s.v[v].spos implies #[trigger] s.nb(v, p) < s.nb(u, k) by { assert(s.nb(v, p) < s.nb(v, s.v[v].spos)); }
    }
}
pub proof fn lemma_scn_pre(g: graph, s: Sh, u: int, j: int, k: int, start: int)
    requires s == g.sh(), scn(s, u, j, k, start), k < s.v[u].N,
    ensures ({
        let v = g.vertices@[s.nb(u, j)];
        &&& 0 <= s.nb(u, j) < g.vertices@.len() && start < v.N && v.elo + v.N <= g.edge_list@.len() < 0x1000_0000_0000
        &&& g.vertices@[u].elo + k < g.edge_list@.len()
        &&& strictly_sorted(g.edge_list@, v.elo + start, v.N - start)
        &&& in_run(g.edge_list@, v.elo + start, v.N - start, g.edge_list@[g.vertices@[u].elo + k]) == s.adj(s.nb(u, j), s.nb(u, k))
    }),
{
    let vi = s.nb(u, j);
    assert(s.vok(u));
    assert(0 <= vi < s.n());
    assert(s.vok(vi) && s.v[vi] == vsh(g.vertices@[vi]) && s.v[u] == vsh(g.vertices@[u]));
    let v = g.vertices@[vi];
    let x = g.edge_list@[g.vertices@[u].elo + k];
    lemma_run(g, vi, x);
    if s.adj(vi, x as int) {
        let p = choose|p: int| 0 <= p < s.v[vi].N && #[trigger] s.nb(vi, p) == x;
        assert(p >= start);
        assert(g.edge_list@[v.elo + p] == x);
    }
}
// loc is what the search for entry k from start on gave
pub proof fn lemma_scn_step(g: graph, s: Sh, u: int, j: int, k: int, start: int, loc: int, k2: int)
    requires s == g.sh(), scn(s, u, j, k, start), k < s.v[u].N, k < k2 <= s.v[u].N, 0 <= loc < s.v[s.nb(u, j)].N - start,
        forall|i: int| 0 <= i < loc ==> #[trigger] g.edge_list@[g.vertices@[s.nb(u, j)].elo + start + i] < g.edge_list@[g.vertices@[u].elo + k],
    ensures scn(s, u, j, k2, start + loc),
{
    assert(s.vok(u));
    let v = s.nb(u, j);
    assert(0 <= v < s.n());
    assert(s.v[v] == vsh(g.vertices@[v]) && s.v[u] == vsh(g.vertices@[u]));
    if k2 < s.v[u].N {
        assert(s.nb(u, k) < s.nb(u, k2));
        assert forall|p: int| 0 <= p < start + loc implies #[trigger] s.nb(v, p) < s.nb(u, k2) by {
            if p >= start { assert(g.edge_list@[g.vertices@[v].elo + start + (p - start)] < g.edge_list@[g.vertices@[u].elo + k]); }
        }
    }
}
pub proof fn lemma_scn_skip(s: Sh, u: int, j: int, k: int, start: int)
    requires scn(s, u, j, k, start), k < s.v[u].N,
    ensures scn(s, u, j, k + 1, start),
{
    assert(s.vok(u));
    if k + 1 < s.v[u].N { assert(s.nb(u, k) < s.nb(u, k + 1)); }
}
// elements of c before k that are not adjacent to element j
pub proof fn lemma_far_step(s: Sh, u: int, c: Set<int>, j: int, k: int, k2: int)
    requires k < k2, forall|x: int| #[trigger] c.contains(x) ==> x <= k || x >= k2,
    ensures far(s, u, c, j, k2) =~= (if c.contains(k) && !s.adj(s.nb(u, j), s.nb(u, k)) { far(s, u, c, j, k).insert(k) } else { far(s, u, c, j, k) }),
        !far(s, u, c, j, k).contains(k), far(s, u, c, j, k).len() <= c.len(), far(s, u, c, j, k2).len() <= c.len(),
{
    let f = far(s, u, c, j, k); let f2 = far(s, u, c, j, k2);
    assert forall|x: int| #[trigger] f2.contains(x) == (f.contains(x) || (x == k && c.contains(k) && !s.adj(s.nb(u, j), s.nb(u, k)))) by {}
    lemma_len_subset(f, c);
    lemma_len_subset(f2, c);
}
pub open spec fn inl(tr: Seq<u64>, x: int) -> bool { exists|i: int| 0 <= i < tr.len() && #[trigger] tr[i] == x }
// ... listed in tr
pub open spec fn scan(s: Sh, u: int, c: Set<int>, j: int, k: int, start: int, tr: Seq<u64>) -> bool {
    &&& scn(s, u, j, k, start)
    &&& forall|x: int| #[trigger] c.contains(x) ==> j < x < s.v[u].N
    &&& tr.len() == far(s, u, c, j, k).len() && tr.len() <= c.len()
    &&& forall|i: int| 0 <= i < tr.len() ==> far(s, u, c, j, k).contains(#[trigger] tr[i] as int)
    &&& forall|x: int| #[trigger] far(s, u, c, j, k).contains(x) ==> inl(tr, x)
}
pub proof fn lemma_scan_start(s: Sh, u: int, c: Set<int>, j: int, k: int)
    requires s.ok(), 0 <= u < s.n(), 0 <= j < s.v[u].N, j < k <= s.v[u].N,
        forall|x: int| #[trigger] c.contains(x) ==> k <= x < s.v[u].N,
    ensures scan(s, u, c, j, k, s.v[s.nb(u, j)].spos, Seq::empty()), 0 <= s.nb(u, j) < s.n(),
{
    lemma_scn_start(s, u, j, k);
    assert(far(s, u, c, j, k) =~= Set::empty());
}
pub proof fn lemma_scan_pre(g: graph, s: Sh, u: int, c: Set<int>, j: int, k: int, start: int, tr: Seq<u64>)
    requires s == g.sh(), scan(s, u, c, j, k, start, tr), k < s.v[u].N, c.contains(k),
    ensures ({
        let v = g.vertices@[s.nb(u, j)];
        &&& 0 <= s.nb(u, j) < g.vertices@.len() && start < v.N && v.elo + v.N <= g.edge_list@.len() < 0x1000_0000_0000
        &&& g.vertices@[u].elo + k < g.edge_list@.len()
        &&& strictly_sorted(g.edge_list@, v.elo + start, v.N - start)
        &&& in_run(g.edge_list@, v.elo + start, v.N - start, g.edge_list@[g.vertices@[u].elo + k]) == s.adj(s.nb(u, j), s.nb(u, k))
        &&& tr.len() < c.len()
    }),
{
    lemma_scn_pre(g, s, u, j, k, start);
    lemma_len_subset(far(s, u, c, j, k).insert(k), c);
}
pub proof fn lemma_scan_step(g: graph, s: Sh, u: int, c: Set<int>, j: int, k: int, start: int, tr: Seq<u64>, loc: int, k2: int, tr2: Seq<u64>)
    requires s == g.sh(), scan(s, u, c, j, k, start, tr), k < s.v[u].N, k < k2 <= s.v[u].N, k <= u64::MAX, c.contains(k),
        forall|x: int| #[trigger] c.contains(x) ==> x <= k || x >= k2,
        tr2 == (if s.adj(s.nb(u, j), s.nb(u, k)) { tr } else { tr.push(k as u64) }),
        0 <= loc < s.v[s.nb(u, j)].N - start,
        forall|i: int| 0 <= i < loc ==> #[trigger] g.edge_list@[g.vertices@[s.nb(u, j)].elo + start + i] < g.edge_list@[g.vertices@[u].elo + k],
    ensures scan(s, u, c, j, k2, start + loc, tr2), tr2.len() <= c.len(),
{
    lemma_scn_step(g, s, u, j, k, start, loc, k2);
    lemma_far_step(s, u, c, j, k, k2);
    let f = far(s, u, c, j, k); let f2 = far(s, u, c, j, k2);
    if !s.adj(s.nb(u, j), s.nb(u, k)) {
        assert forall|x: int| #[trigger] f2.contains(x) implies inl(tr2, x) by {
            if x == k { assert(tr2[tr.len() as int] == x); }
            else { let i = choose|i: int| 0 <= i < tr.len() && #[trigger] tr[i] == x; assert(tr2[i] == x); }
        }
        assert forall|i: int| 0 <= i < tr2.len() implies f2.contains(#[trigger] tr2[i] as int) by { if i < tr.len() { assert(tr2[i] == tr[i]); } }
    }
}
pub proof fn lemma_scan_skip(s: Sh, u: int, c: Set<int>, j: int, k: int, start: int, tr: Seq<u64>)
    requires scan(s, u, c, j, k, start, tr), k < s.v[u].N, !c.contains(k),
    ensures scan(s, u, c, j, k + 1, start, tr),
{
    lemma_scn_skip(s, u, j, k, start);
    lemma_far_step(s, u, c, j, k, k + 1);
}
pub open spec fn minus(c: Set<int>, tr: Seq<u64>, i: int) -> Set<int> { c.filter(|x: int| !inl(tr.take(i), x)) }
pub proof fn lemma_minus(c: Set<int>, tr: Seq<u64>, i: int)
    requires 0 <= i <= tr.len(),
    ensures i < tr.len() ==> minus(c, tr, i + 1) =~= minus(c, tr, i).remove(tr[i] as int), minus(c, tr, 0) =~= c,
{
    if i < tr.len() {
        let a = tr.take(i); let b = tr.take(i + 1);
        assert forall|x: int| #[trigger] inl(b, x) == (inl(a, x) || x == tr[i]) by {
            if inl(a, x) { let k = choose|k: int| 0 <= k < a.len() && #[trigger] a[k] == x; assert(b[k] == x); }
            if inl(b, x) { let k = choose|k: int| 0 <= k < b.len() && #[trigger] b[k] == x; if k < i { assert(a[k] == x); } }
            assert(b[i] == tr[i]);
        }
    }
}
pub proof fn lemma_minus_far(s: Sh, u: int, c: Set<int>, j: int, k: int, start: int, tr: Seq<u64>)
    requires scan(s, u, c, j, k, start, tr),
    ensures minus(c, tr, tr.len() as int) =~= c.difference(far(s, u, c, j, k)),
{
    assert(tr.take(tr.len() as int) =~= tr);
    let f = far(s, u, c, j, k);
    assert forall|x: int| f.contains(x) == inl(tr, x) by {
        if inl(tr, x) { let i = choose|i: int| 0 <= i < tr.len() && #[trigger] tr[i] == x; assert(f.contains(tr[i] as int)); }
    }
}
// R is a clique below u and every member of C extends it
pub open spec fn grow(s: Sh, u: int, r: Set<int>, c: Set<int>) -> bool {
    s.rclq(u, r) && forall|x: int| #[trigger] c.contains(x) ==> !r.contains(x) && s.rclq(u, r.insert(x))
}
pub open spec fn mid(r: Set<int>, c: Set<int>, q: Set<int>) -> bool {
    &&& forall|x: int| #[trigger] r.contains(x) ==> q.contains(x)
    &&& forall|x: int| #[trigger] q.contains(x) ==> r.contains(x) || c.contains(x)
}
pub proof fn lemma_sym(s: Sh, a: int, b: int)
    requires s.ok(), s.adj(a, b), 0 <= b < s.n(),
    ensures s.adj(b, a),
{}
// j joins r, those of c that are adjacent to j stay
pub proof fn lemma_grow_add(s: Sh, u: int, r: Set<int>, c: Set<int>, j: int, d: Set<int>)
    requires s.ok(), 0 <= u < s.n(), grow(s, u, r, c), c.contains(j),
        forall|x: int| #[trigger] d.contains(x) ==> c.contains(x) && x != j && s.adj(s.nb(u, j), s.nb(u, x)),
    ensures grow(s, u, r.insert(j), d), d.len() < c.len(), r.insert(j).len() == r.len() + 1, !r.contains(j), s.rclq(u, r.insert(j)),
{
    let r2 = r.insert(j);
    assert(s.vok(u));
    lemma_len_subset(d, c.remove(j));
    assert forall|x: int| #[trigger] d.contains(x) implies !r2.contains(x) && s.rclq(u, r2.insert(x)) by {
        let q = r2.insert(x);
        assert(s.rclq(u, r.insert(x)) && s.rclq(u, r.insert(j)));
        assert(r.insert(x).contains(x) && r.insert(j).contains(j));
        assert(s.adj(s.nb(u, j), s.nb(u, x)));
        lemma_sym(s, s.nb(u, j), s.nb(u, x));
        assert forall|a: int, b: int| #[trigger] q.contains(a) && #[trigger] q.contains(b) implies s.adj(s.nb(u, a), s.nb(u, b)) by {
            if a != x && b != x { assert(r.insert(j).contains(a) && r.insert(j).contains(b)); }
            else if a != j && b != j { assert(r.insert(x).contains(a) && r.insert(x).contains(b)); }
        }
        assert forall|a: int| #[trigger] q.contains(a) implies 0 <= a < s.v[u].N && s.rin(u, a) by {
            if a != x { assert(r.insert(j).contains(a)); } else { assert(r.insert(x).contains(a)); }
        }
    }
}
pub proof fn lemma_grow_root(s: Sh, u: int)
    requires s.ok(), 1 <= u < s.n(),
    ensures grow(s, u, set![s.v[u].spos], rset0(s, u, s.v[u].N)),
        forall|q: Set<int>| #[trigger] s.rclq(u, q) ==> mid(set![s.v[u].spos], rset0(s, u, s.v[u].N), q),
{
    assert(s.vok(u));
    let p = s.v[u].spos;
    assert(s.nb(u, p) == u);
    assert forall|x: int| 0 <= x < s.v[u].N && s.rin(u, x) implies #[trigger] s.rclq(u, set![p].insert(x)) by {
        let w = s.nb(u, x);
        assert(0 <= w < s.n());
        assert(s.vok(w));
        assert(s.nb(w, s.v[w].spos) == w);
        assert(0 <= s.v[w].spos < s.v[w].N);
        assert(s.adj(w, w)); assert(s.adj(u, u));
        assert(s.adj(u, s.nb(u, x)));
        assert(s.adj(w, u));
    }
    assert(set![p].insert(p) =~= set![p]);
    assert(s.rclq(u, set![p].insert(p)));
}
