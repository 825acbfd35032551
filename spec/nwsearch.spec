@lib
// During a search rooted at u only the search memory, u's own bitset and the record of the best clique change.
#[verifier::opaque]
pub open spec fn gsrch(g0: nwgraph, g: nwgraph, u: int) -> bool {
    &&& g == (nwgraph { edge_bits: g.edge_bits, search_cur: g.search_cur, CUR_MAX_CLIQUE_SIZE: g.CUR_MAX_CLIQUE_SIZE,
            CUR_MAX_CLIQUE_LOCATION: g.CUR_MAX_CLIQUE_LOCATION, ..g0 })
    &&& g0.gst() && 1 <= u < g0.n_vert && g0.search_start <= g0.search_cur <= g.search_cur
    &&& g.edge_bits.gen == g0.edge_bits.gen && g.edge_bits@.len() == g0.edge_bits@.len()
    &&& forall|k: int| 0 <= k < g0.search_cur && !(g0.vertices@[u].ebo <= k < g0.vertices@[u].ebo + blen(g0.vertices@[u].N as int))
        ==> #[trigger] g.edge_bits@[k] == g0.edge_bits@[k]
    &&& g.vsto(u) && g.zeros()
    &&& {
        ||| g.CUR_MAX_CLIQUE_SIZE@ == g0.CUR_MAX_CLIQUE_SIZE@ && g.CUR_MAX_CLIQUE_LOCATION == g0.CUR_MAX_CLIQUE_LOCATION && g.store_of(u) == g0.store_of(u)
        ||| g.CUR_MAX_CLIQUE_SIZE@ > g0.CUR_MAX_CLIQUE_SIZE@ && g.CUR_MAX_CLIQUE_LOCATION == u && wof(g.sh(), u, g.store_of(u)) == g.CUR_MAX_CLIQUE_SIZE@
    }
}
// facts about the root of a search
pub proof fn lemma_root(g: nwgraph, u: int)
    requires g.gst(), 1 <= u < g.n_vert,
    ensures ({
        let v = g.vertices@[u]; let s = g.sh(); let bb = blen(v.N as int); let rc = g.max_depth as int;
        &&& s.ok() && s.vok(u) && s.v[u] == vsh(v) && g.vlay(u) && g.vsto(u) && s.n() == g.n_vert && s.n() == g.vertices@.len()
        &&& v.spos < v.N <= g.n_vert && g.n_vert <= 0x1_0000_0000 && v.elo + v.N <= g.edge_list@.len() < 0x1000_0000_0000
        &&& 1 <= bb <= v.N && (if v.N % 64 != 0 { 1int } else { 0int }) + v.N / 64 == bb
        &&& 1 <= rc && g.vdeg(u) && g.search_start + 2 * (rc + 1) * bb <= g.edge_bits@.len() < 0x1000_0000_0000
        &&& v.ebo + bb < g.search_start && v.bits.lo() == v.ebo && v.bits.n() == v.N && v.bits.wfp(g.edge_bits)
        &&& g.search_start <= g.search_cur
        &&& g.search_start + 4 * bb <= g.edge_bits@.len()
    }),
{
    let v = g.vertices@[u]; let s = g.sh(); let bb = blen(v.N as int); let rc = g.max_depth as int;
    assert(g.vlay(u) && s.vok(u) && s.v[u] == vsh(v) && g.vsto(u) && g.vdeg(u));
    lemma_blen64(v.N);
    let p = set![s.v[u].spos];
    assert(s.rclq(u, p)) by { assert(s.nb(u, s.v[u].spos) == u); assert(s.adj(u, u)); }
    assert(p.len() == 1);
    let mb = blen(g.max_neighbors as int);
    assert(2 * (rc + 1) * bb <= 2 * (rc + 1) * mb) by(nonlinear_arith) requires bb <= mb, rc >= 0;
    assert(4 * bb <= 2 * (rc + 1) * bb) by(nonlinear_arith) requires rc >= 1, bb >= 0;
}
pub proof fn lemma_gs_start(g0: nwgraph, u: int)
    requires g0.gwf(), 1 <= u < g0.n_vert,
    ensures gsrch(g0, g0, u), gsrch(g0.base(), g0, u),
{
    reveal(gsrch); assert(g0.vsto(u));
    let b = g0.base();
    assert(b.sh() == g0.sh());
    assert forall|w: int| 0 <= w < b.n_vert implies #[trigger] b.vlay(w) by { assert(g0.vlay(w)); }
    assert forall|w: int| 0 <= w < b.n_vert implies #[trigger] b.vsto(w) by { assert(g0.vsto(w)); }
    assert forall|w: int| 1 <= w < b.n_vert implies #[trigger] b.vmcs(w) by { assert(g0.vmcs(w)); }
    assert forall|w: int| 0 <= w < b.n_vert implies #[trigger] b.vdeg(w) by { assert(g0.vdeg(w)); }
}
// two searches below the same root, one after the other
pub proof fn lemma_gs_trans(g0: nwgraph, a: nwgraph, b: nwgraph, u: int)
    requires gsrch(g0, a, u), gsrch(a.base(), b, u), g0.search_cur == a.search_start,
    ensures gsrch(g0, b, u), b.CUR_MAX_CLIQUE_SIZE@ >= a.CUR_MAX_CLIQUE_SIZE@,
{
    reveal(gsrch);
    assert(a.base().store_of(u) == a.store_of(u));
}
// search memory [lo, hi) written, bounds of the memory in use moved
pub proof fn lemma_gs_mem(g0: nwgraph, a: nwgraph, b: nwgraph, u: int, lo: int, hi: int)
    requires gsrch(g0, a, u), b == (nwgraph { edge_bits: b.edge_bits, search_cur: b.search_cur, ..a }),
        b.edge_bits.gen == a.edge_bits.gen, same_outside(a.edge_bits@, b.edge_bits@, lo, hi), g0.search_cur <= lo,
        g0.search_cur <= b.search_cur,
        forall|k: int| b.search_cur <= k < b.edge_bits@.len() ==> #[trigger] b.edge_bits@[k] == 0,
    ensures gsrch(g0, b, u),
{
    reveal(gsrch);
    lemma_root(g0, u);
    let v = g0.vertices@[u];
    lemma_frame(a.edge_bits, b.edge_bits, v.bits, lo, hi);
    assert(a.sh() == b.sh());
}
pub proof fn lemma_gs_zero(g0: nwgraph, a: nwgraph, u: int)
    requires gsrch(g0, a, u),
    ensures a.zeros(), a.edge_bits@.len() == g0.edge_bits@.len(), a.edge_bits.gen == g0.edge_bits.gen, a.sh() == g0.sh(),
        a == (nwgraph { edge_bits: a.edge_bits, search_cur: a.search_cur, CUR_MAX_CLIQUE_SIZE: a.CUR_MAX_CLIQUE_SIZE,
            CUR_MAX_CLIQUE_LOCATION: a.CUR_MAX_CLIQUE_LOCATION, ..g0 }),
        g0.gst(), 1 <= u < g0.n_vert, a.CUR_MAX_CLIQUE_SIZE@ >= g0.CUR_MAX_CLIQUE_SIZE@, a.search_cur >= g0.search_cur,
        a.vertices@[u].bits.wfp(a.edge_bits),
{ reveal(gsrch); lemma_root(g0, u); }
// q, held by handle r in the search memory, was copied to u's bitset
pub proof fn lemma_gs_record(g0: nwgraph, a: nwgraph, b: nwgraph, u: int, q: Set<int>)
    requires gsrch(g0, a, u), b == (nwgraph { edge_bits: b.edge_bits, CUR_MAX_CLIQUE_SIZE: b.CUR_MAX_CLIQUE_SIZE, CUR_MAX_CLIQUE_LOCATION: b.CUR_MAX_CLIQUE_LOCATION, ..a }),
        b.edge_bits.gen == a.edge_bits.gen, only_block(a.edge_bits, b.edge_bits, a.vertices@[u].bits),
        b.store_of(u) == q, b.vertices@[u].bits.clean(b.edge_bits), g0.sh().rclq(u, q), wof(g0.sh(), u, q) > a.CUR_MAX_CLIQUE_SIZE@,
        b.CUR_MAX_CLIQUE_SIZE@ == wof(g0.sh(), u, q), b.CUR_MAX_CLIQUE_LOCATION == u,
    ensures gsrch(g0, b, u),
{
    reveal(gsrch);
    lemma_root(g0, u);
    assert(a.sh() == b.sh());
}
// the end of a search: only mcs of u may have been lowered
pub proof fn lemma_gs_end(g0: nwgraph, a: nwgraph, b: nwgraph, u: int)
    requires gsrch(g0, a, u), a.search_cur == g0.search_cur || a.search_cur <= a.edge_bits@.len(),
        b == (nwgraph { vertices: b.vertices, ..a }), b.vertices@.len() == a.vertices@.len(),
        forall|w: int| 0 <= w < a.vertices@.len() && w != u ==> #[trigger] b.vertices@[w] == a.vertices@[w],
        b.vertices@[u] == (wvertex { mcs: b.vertices@[u].mcs, ..a.vertices@[u] }),
        b.vertices@[u].mcs@ <= a.vertices@[u].mcs@,
        b.vertices@[u].mcs@ == a.vertices@[u].mcs@ || (wpos(g0.sh()) ==> forall|q: Set<int>| #[trigger] g0.sh().rclq(u, q) ==> wof(g0.sh(), u, q) <= b.vertices@[u].mcs@),
    ensures b.gwf(), b.sh() == g0.sh(), searched(g0, nwgraph { search_cur: g0.search_cur, ..b }, u), a.search_cur == g0.search_cur ==> searched(g0, b, u),
{
    reveal(gsrch);
    lemma_root(g0, u);
    let s = g0.sh();
    assert forall|w: int| 0 <= w < a.vertices@.len() implies vsh(#[trigger] a.vertices@[w]) == vsh(b.vertices@[w]) by {
        if w != u { assert(b.vertices@[w] == a.vertices@[w]); }
    }
    lemma_sh_eq(a, b);
    assert(a.sh() == g0.sh());
    assert forall|w: int| 0 <= w < b.n_vert implies #[trigger] b.vlay(w) by { assert(g0.vlay(w)); if w != u { assert(b.vertices@[w] == a.vertices@[w]); } }
    assert forall|w: int| 0 <= w < b.n_vert && w != u implies b.vsto(w) && #[trigger] b.store_of(w) == g0.store_of(w) by { lemma_gs_other(g0, a, u, w); assert(b.vertices@[w] == a.vertices@[w]); }
    assert(b.vsto(u) && b.store_of(u) == a.store_of(u));
    assert forall|w: int| 0 <= w < b.n_vert implies #[trigger] b.vsto(w) by { assert(w == u || b.store_of(w) == g0.store_of(w)); }
    assert forall|w: int| 0 <= w < b.n_vert implies #[trigger] b.vdeg(w) by { assert(g0.vdeg(w)); if w != u { assert(b.vertices@[w] == a.vertices@[w]); } }
    assert forall|w: int| 1 <= w < b.n_vert implies #[trigger] b.vmcs(w) by {
        assert(g0.vmcs(w));
        if w != u { assert(b.vertices@[w] == a.vertices@[w]); }
    }
    assert forall|x: int, w: int| 0 <= x < w < b.n_vert implies
            #[trigger] b.vertices@[x].ebo + blen(b.vertices@[x].N as int) <= #[trigger] b.vertices@[w].ebo by {
        assert(g0.vertices@[x].ebo + blen(g0.vertices@[x].N as int) <= g0.vertices@[w].ebo);
        if w != u { assert(b.vertices@[w] == a.vertices@[w]); }
        if x != u { assert(b.vertices@[x] == a.vertices@[x]); }
    }
    let c = nwgraph { search_cur: g0.search_cur, ..b };
    assert(c.sh() == b.sh());
    assert forall|w: int| 0 <= w < g0.n_vert implies #[trigger] c.vertices@[w].mcs@ <= g0.vertices@[w].mcs@ by { if w != u { assert(b.vertices@[w] == a.vertices@[w]); } }
    assert forall|w: int| 0 <= w < g0.n_vert && w != u implies #[trigger] c.store_of(w) == g0.store_of(w) by { assert(b.store_of(w) == g0.store_of(w)); }
    assert(c.store_of(u) == a.store_of(u));
}
proof fn lemma_gs_other(g0: nwgraph, a: nwgraph, u: int, w: int)
    requires gsrch(g0, a, u), 0 <= w < g0.n_vert, w != u,
    ensures a.vsto(w), a.store_of(w) == g0.store_of(w),
{
    reveal(gsrch);
    assert(g0.vlay(w) && g0.vlay(u) && g0.vsto(w) && g0.sh().vok(w) && g0.sh().v[w] == vsh(g0.vertices@[w]));
    let x = g0.vertices@[w].bits;
    if w < u { assert(g0.vertices@[w].ebo + blen(g0.vertices@[w].N as int) <= g0.vertices@[u].ebo); }
    else { assert(g0.vertices@[u].ebo + blen(g0.vertices@[u].N as int) <= g0.vertices@[w].ebo); }
    assert forall|i: int| 0 <= i < 64 * blen(x.n()) implies #[trigger] bat(a.edge_bits@, x.lo(), i) == bat(g0.edge_bits@, x.lo(), i) by {
        let k = x.lo() + i / 64;
        assert(x.lo() <= k < x.hi());
        assert(a.edge_bits@[k] == g0.edge_bits@[k]);
    }
    assert(x.n() <= 64 * blen(x.n()));
    assert(x.set_in(a.edge_bits) =~= x.set_in(g0.edge_bits));
    assert(x.clean(a.edge_bits)) by {
        assert forall|i: int| x.valid_len <= i < 64 * blen(x.valid_len as int) implies !#[trigger] bat(a.edge_bits@, x.data.off as int, i) by {
            assert(bat(a.edge_bits@, x.lo(), i) == bat(g0.edge_bits@, x.lo(), i));
        }
    }
    assert(a.sh() == g0.sh());
}
// what a search rooted at u may have changed
pub open spec fn searched(g0: nwgraph, g: nwgraph, u: int) -> bool {
    &&& g.sh() == g0.sh() && g.n_vert == g0.n_vert && g.CLIQUE_LIMIT == g0.CLIQUE_LIMIT && g.search_cur == g0.search_cur && g.search_start == g0.search_start
    &&& g.max_degree == g0.max_degree && g.max_neighbors == g0.max_neighbors && g.max_depth == g0.max_depth
    &&& forall|w: int| 0 <= w < g0.n_vert ==> #[trigger] g.vertices@[w].mcs@ <= g0.vertices@[w].mcs@
    &&& forall|w: int| 0 <= w < g0.n_vert && w != u ==> #[trigger] g.store_of(w) == g0.store_of(w)
    &&& {
        ||| g.CUR_MAX_CLIQUE_SIZE@ == g0.CUR_MAX_CLIQUE_SIZE@ && g.CUR_MAX_CLIQUE_LOCATION == g0.CUR_MAX_CLIQUE_LOCATION && g.store_of(u) == g0.store_of(u)
        ||| g.CUR_MAX_CLIQUE_SIZE@ > g0.CUR_MAX_CLIQUE_SIZE@ && g.CUR_MAX_CLIQUE_LOCATION == u && wof(g.sh(), u, g.store_of(u)) == g.CUR_MAX_CLIQUE_SIZE@
    }
}
pub open spec fn searched_all(g0: nwgraph, g: nwgraph) -> bool {
    &&& g.sh() == g0.sh() && g.n_vert == g0.n_vert && g.CLIQUE_LIMIT == g0.CLIQUE_LIMIT && g.search_cur == g0.search_cur && g.search_start == g0.search_start
    &&& g.max_degree == g0.max_degree && g.max_neighbors == g0.max_neighbors && g.max_depth == g0.max_depth
    &&& {
        ||| g.CUR_MAX_CLIQUE_SIZE@ == g0.CUR_MAX_CLIQUE_SIZE@ && g.CUR_MAX_CLIQUE_LOCATION == g0.CUR_MAX_CLIQUE_LOCATION
            && forall|w: int| 0 <= w < g0.n_vert ==> #[trigger] g.store_of(w) == g0.store_of(w)
        ||| g.CUR_MAX_CLIQUE_SIZE@ > g0.CUR_MAX_CLIQUE_SIZE@ && 1 <= g.CUR_MAX_CLIQUE_LOCATION < g.n_vert
            && wof(g.sh(), g.CUR_MAX_CLIQUE_LOCATION as int, g.store_of(g.CUR_MAX_CLIQUE_LOCATION as int)) == g.CUR_MAX_CLIQUE_SIZE@
    }
}
pub proof fn lemma_all_start(g: nwgraph)
    ensures searched_all(g, g),
{}
pub proof fn lemma_all_step(g0: nwgraph, a: nwgraph, b: nwgraph, u: int)
    requires searched_all(g0, a), searched(a, b, u), 1 <= u < a.n_vert,
    ensures searched_all(g0, b), b.CUR_MAX_CLIQUE_SIZE@ >= a.CUR_MAX_CLIQUE_SIZE@, b.CLIQUE_LIMIT == a.CLIQUE_LIMIT, b.sh() == a.sh(),
{
    let l = a.CUR_MAX_CLIQUE_LOCATION as int;
    if b.CUR_MAX_CLIQUE_SIZE@ == a.CUR_MAX_CLIQUE_SIZE@ {
        assert forall|w: int| 0 <= w < a.n_vert implies #[trigger] b.store_of(w) == a.store_of(w) by {}
        if a.CUR_MAX_CLIQUE_SIZE@ > g0.CUR_MAX_CLIQUE_SIZE@ { assert(b.store_of(l) == a.store_of(l)); }
        else { assert forall|w: int| 0 <= w < g0.n_vert implies #[trigger] b.store_of(w) == g0.store_of(w) by { assert(a.store_of(w) == g0.store_of(w)); } }
    }
}
// with positive weights the weights of all cliques rooted at vertices before v are known
pub open spec fn done(g: nwgraph, v: int) -> bool {
    wpos(g.sh()) ==> forall|u: int, q: Set<int>| 1 <= u < v && u < g.n_vert && #[trigger] g.sh().rclq(u, q) ==> wof(g.sh(), u, q) <= g.CUR_MAX_CLIQUE_SIZE@
}
// the root state while its candidates are collected
pub open spec fn rooti(g0: nwgraph, g: nwgraph, x: NWSearchState, u: int, b: int, sw: bool, j: int, pot: real) -> bool {
    let s = g0.sh(); let n = s.v[u].N; let bb = blen(n); let m = g.edge_bits;
    &&& gsrch(g0, g, u) && g.search_cur == b + 2 * bb && b == g0.search_cur
    &&& x.id == s.v[u].spos && x.start_at == 0
    &&& x.res.wf(m) && x.res.lo() == res_lo(b, bb, sw) && x.res.n() == n && x.res.set_in(m) == set![s.v[u].spos]
    &&& x.cand.wf(m) && x.cand.lo() == cand_lo(b, bb, sw, 0) && x.cand.n() == n && x.cand.set_in(m) == rset0(s, u, j)
    &&& pot == wof(s, u, rset0(s, u, j))
}
pub proof fn lemma_root_set(g0: nwgraph, ga: nwgraph, gb: nwgraph, x: NWSearchState, u: int, b: int, sw: bool, j: int, pot: real)
    requires rooti(g0, ga, x, u, b, sw, j, pot), gb == (nwgraph { edge_bits: gb.edge_bits, ..ga }), 0 <= j,
        only_block(ga.edge_bits, gb.edge_bits, x.cand), x.cand.wf(gb.edge_bits), x.cand.set_in(gb.edge_bits) =~= x.cand.set_in(ga.edge_bits).insert(j),
        g0.sh().rin(u, j) && j != g0.sh().v[u].spos, j < g0.sh().v[u].N,
    ensures rooti(g0, gb, x, u, b, sw, j + 1, pot + wt(g0.sh(), u, j)),
{
    let s = g0.sh();
    lemma_gs_zero(g0, ga, u);
    lemma_root(g0, u);
    lemma_rset0(s, u, j);
    lemma_w_insert(s, u, rset0(s, u, j), j, s.v[u].N);
    lemma_frame(ga.edge_bits, gb.edge_bits, x.res, x.cand.lo(), x.cand.hi());
    lemma_gs_mem(g0, ga, gb, u, x.cand.lo(), x.cand.hi());
}
pub proof fn lemma_root_skip(g0: nwgraph, g: nwgraph, x: NWSearchState, u: int, b: int, sw: bool, j: int, pot: real)
    requires rooti(g0, g, x, u, b, sw, j, pot), 0 <= j, !g0.sh().rin(u, j) || j == g0.sh().v[u].spos,
    ensures rooti(g0, g, x, u, b, sw, j + 1, pot),
{ lemma_rset0(g0.sh(), u, j); }
pub proof fn lemma_root_init(g0: nwgraph, ga: nwgraph, gb: nwgraph, x: NWSearchState, u: int, b: int, sw: bool)
    requires g0.gwf(), 1 <= u < g0.n_vert, b == g0.search_cur, ga == (nwgraph { search_cur: ga.search_cur, ..g0 }),
        gb == (nwgraph { edge_bits: gb.edge_bits, ..ga }), ga.search_cur == b + 2 * blen(g0.sh().v[u].N), ga.search_cur <= ga.edge_bits@.len(),
        x.id == g0.sh().v[u].spos, x.start_at == 0, x.res.wfp(ga.edge_bits), x.cand.wfp(ga.edge_bits), x.res.wfp(gb.edge_bits), x.cand.wfp(gb.edge_bits),
        x.res.n() == g0.sh().v[u].N, x.cand.n() == g0.sh().v[u].N,
        x.res.lo() == res_lo(b, blen(x.res.n()), sw), x.cand.lo() == cand_lo(b, blen(x.res.n()), sw, 0),
        only_block(ga.edge_bits, gb.edge_bits, x.res), x.res.set_in(gb.edge_bits) =~= x.res.set_in(ga.edge_bits).insert(g0.sh().v[u].spos),
        x.res.clean(ga.edge_bits) ==> x.res.clean(gb.edge_bits),
    ensures rooti(g0, gb, x, u, b, sw, 0, 0real),
{
    let s = g0.sh();
    lemma_root(g0, u);
    lemma_gs_start(g0, u);
    lemma_gs_mem(g0, g0, ga, u, b, b);
    lemma_zero_block(ga.edge_bits, x.res);
    lemma_zero_block(ga.edge_bits, x.cand);
    lemma_frame(ga.edge_bits, gb.edge_bits, x.cand, x.res.lo(), x.res.hi());
    lemma_gs_mem(g0, ga, gb, u, x.res.lo(), x.res.hi());
    lemma_rset0(s, u, 0);
    lemma_w_empty(s, u, rset0(s, u, 0), s.v[u].N);
    assert(x.res.set_in(gb.edge_bits) =~= set![s.v[u].spos]);
}

// the weights of the candidates noted so far
pub open spec fn noted(s: Sh, u: int, wts: Seq<Dbl>, j: int) -> bool {
    wts.len() >= s.v[u].N && forall|k: int| #[trigger] rset0(s, u, j).contains(k) ==> wts[k]@ == wt(s, u, k)
}
// a scan of u's list behind position j, along the list of j's wvertex: everything before start in that list is smaller than entry k
pub open spec fn scn(s: Sh, u: int, j: int, k: int, start: int) -> bool {
    let v = s.nb(u, j);
    &&& s.ok() && 0 <= u < s.n() && 0 <= j < s.v[u].N && 0 <= start < s.v[v].N && j < k <= s.v[u].N
    &&& k < s.v[u].N ==> forall|p: int| 0 <= p < start ==> #[trigger] s.nb(v, p) < s.nb(u, k)
}
pub proof fn lemma_scn_start(s: Sh, u: int, j: int, k: int)
    requires s.ok(), 0 <= u < s.n(), 0 <= j < s.v[u].N, j < k <= s.v[u].N,
    ensures scn(s, u, j, k, s.v[s.nb(u, j)].spos), 0 <= s.nb(u, j) < s.n(),
{
    assert(s.vok(u));
    let v = s.nb(u, j);
    assert(0 <= v < s.n());
    assert(s.vok(v));
    if k < s.v[u].N {
        assert(s.nb(u, j) < s.nb(u, k));
        assert forall|p: int| 0 <= p < s.v[v].spos implies #[trigger] s.nb(v, p) < s.nb(u, k) by { assert(s.nb(v, p) < s.nb(v, s.v[v].spos)); }
    }
}
pub proof fn lemma_scn_pre(g: nwgraph, s: Sh, u: int, j: int, k: int, start: int)
    requires s == g.sh(), scn(s, u, j, k, start), k < s.v[u].N,
    ensures ({
        let v = g.vertices@[s.nb(u, j)];
        &&& 0 <= s.nb(u, j) < g.vertices@.len() && start < v.N && v.elo + v.N <= g.edge_list@.len() < 0x1000_0000_0000
        &&& g.vertices@[u].elo + k < g.edge_list@.len()
        &&& strictly_sorted(g.edge_list@, v.elo + start, v.N - start)
        &&& in_run(g.edge_list@, v.elo + start, v.N - start, g.edge_list@[g.vertices@[u].elo + k]) == s.adj(s.nb(u, j), s.nb(u, k))
    }),
{
    let vi = s.nb(u, j);
    assert(s.vok(u));
    assert(0 <= vi < s.n());
    assert(s.vok(vi) && s.v[vi] == vsh(g.vertices@[vi]) && s.v[u] == vsh(g.vertices@[u]));
    let v = g.vertices@[vi];
    let x = g.edge_list@[g.vertices@[u].elo + k];
    lemma_run(g, vi, x);
    if s.adj(vi, x as int) {
        let p = choose|p: int| 0 <= p < s.v[vi].N && #[trigger] s.nb(vi, p) == x;
        assert(p >= start);
        assert(g.edge_list@[v.elo + p] == x);
    }
}
// loc is what the search for entry k from start on gave
pub proof fn lemma_scn_step(g: nwgraph, s: Sh, u: int, j: int, k: int, start: int, loc: int, k2: int)
    requires s == g.sh(), scn(s, u, j, k, start), k < s.v[u].N, k < k2 <= s.v[u].N, 0 <= loc < s.v[s.nb(u, j)].N - start,
        forall|i: int| 0 <= i < loc ==> #[trigger] g.edge_list@[g.vertices@[s.nb(u, j)].elo + start + i] < g.edge_list@[g.vertices@[u].elo + k],
    ensures scn(s, u, j, k2, start + loc),
{
    assert(s.vok(u));
    let v = s.nb(u, j);
    assert(0 <= v < s.n());
    assert(s.v[v] == vsh(g.vertices@[v]) && s.v[u] == vsh(g.vertices@[u]));
    if k2 < s.v[u].N {
        assert(s.nb(u, k) < s.nb(u, k2));
        assert forall|p: int| 0 <= p < start + loc implies #[trigger] s.nb(v, p) < s.nb(u, k2) by {
            if p >= start { assert(g.edge_list@[g.vertices@[v].elo + start + (p - start)] < g.edge_list@[g.vertices@[u].elo + k]); }
        }
    }
}
pub proof fn lemma_scn_skip(s: Sh, u: int, j: int, k: int, start: int)
    requires scn(s, u, j, k, start), k < s.v[u].N,
    ensures scn(s, u, j, k + 1, start),
{
    assert(s.vok(u));
    if k + 1 < s.v[u].N { assert(s.nb(u, k) < s.nb(u, k + 1)); }
}
// elements of c before k that are not adjacent to element j
pub proof fn lemma_far_step(s: Sh, u: int, c: Set<int>, j: int, k: int, k2: int)
    requires k < k2, forall|x: int| #[trigger] c.contains(x) ==> x <= k || x >= k2,
    ensures far(s, u, c, j, k2) =~= (if c.contains(k) && !s.adj(s.nb(u, j), s.nb(u, k)) { far(s, u, c, j, k).insert(k) } else { far(s, u, c, j, k) }),
        !far(s, u, c, j, k).contains(k), far(s, u, c, j, k).len() <= c.len(), far(s, u, c, j, k2).len() <= c.len(),
{
    let f = far(s, u, c, j, k); let f2 = far(s, u, c, j, k2);
    assert forall|x: int| #[trigger] f2.contains(x) == (f.contains(x) || (x == k && c.contains(k) && !s.adj(s.nb(u, j), s.nb(u, k)))) by {}
    lemma_len_subset(f, c);
    lemma_len_subset(f2, c);
}
pub open spec fn inl(tr: Seq<u64>, x: int) -> bool { exists|i: int| 0 <= i < tr.len() && #[trigger] tr[i] == x }
// ... listed in tr
pub open spec fn scan(s: Sh, u: int, c: Set<int>, j: int, k: int, start: int, tr: Seq<u64>) -> bool {
    &&& scn(s, u, j, k, start)
    &&& forall|x: int| #[trigger] c.contains(x) ==> j < x < s.v[u].N
    &&& tr.len() == far(s, u, c, j, k).len() && tr.len() <= c.len()
    &&& forall|i: int| 0 <= i < tr.len() ==> far(s, u, c, j, k).contains(#[trigger] tr[i] as int)
    &&& forall|x: int| #[trigger] far(s, u, c, j, k).contains(x) ==> inl(tr, x)
}
pub proof fn lemma_scan_start(s: Sh, u: int, c: Set<int>, j: int, k: int)
    requires s.ok(), 0 <= u < s.n(), 0 <= j < s.v[u].N, j < k <= s.v[u].N,
        forall|x: int| #[trigger] c.contains(x) ==> k <= x < s.v[u].N,
    ensures scan(s, u, c, j, k, s.v[s.nb(u, j)].spos, Seq::empty()), 0 <= s.nb(u, j) < s.n(),
{
    lemma_scn_start(s, u, j, k);
    assert(far(s, u, c, j, k) =~= Set::empty());
}
pub proof fn lemma_scan_pre(g: nwgraph, s: Sh, u: int, c: Set<int>, j: int, k: int, start: int, tr: Seq<u64>)
    requires s == g.sh(), scan(s, u, c, j, k, start, tr), k < s.v[u].N, c.contains(k),
    ensures ({
        let v = g.vertices@[s.nb(u, j)];
        &&& 0 <= s.nb(u, j) < g.vertices@.len() && start < v.N && v.elo + v.N <= g.edge_list@.len() < 0x1000_0000_0000
        &&& g.vertices@[u].elo + k < g.edge_list@.len()
        &&& strictly_sorted(g.edge_list@, v.elo + start, v.N - start)
        &&& in_run(g.edge_list@, v.elo + start, v.N - start, g.edge_list@[g.vertices@[u].elo + k]) == s.adj(s.nb(u, j), s.nb(u, k))
        &&& tr.len() < c.len()
    }),
{
    lemma_scn_pre(g, s, u, j, k, start);
    lemma_len_subset(far(s, u, c, j, k).insert(k), c);
}
pub proof fn lemma_scan_step(g: nwgraph, s: Sh, u: int, c: Set<int>, j: int, k: int, start: int, tr: Seq<u64>, loc: int, k2: int, tr2: Seq<u64>)
    requires s == g.sh(), scan(s, u, c, j, k, start, tr), k < s.v[u].N, k < k2 <= s.v[u].N, k <= u64::MAX, c.contains(k),
        forall|x: int| #[trigger] c.contains(x) ==> x <= k || x >= k2,
        tr2 == (if s.adj(s.nb(u, j), s.nb(u, k)) { tr } else { tr.push(k as u64) }),
        0 <= loc < s.v[s.nb(u, j)].N - start,
        forall|i: int| 0 <= i < loc ==> #[trigger] g.edge_list@[g.vertices@[s.nb(u, j)].elo + start + i] < g.edge_list@[g.vertices@[u].elo + k],
    ensures scan(s, u, c, j, k2, start + loc, tr2), tr2.len() <= c.len(),
{
    lemma_scn_step(g, s, u, j, k, start, loc, k2);
    lemma_far_step(s, u, c, j, k, k2);
    let f = far(s, u, c, j, k); let f2 = far(s, u, c, j, k2);
    if !s.adj(s.nb(u, j), s.nb(u, k)) {
        assert forall|x: int| #[trigger] f2.contains(x) implies inl(tr2, x) by {
            if x == k { assert(tr2[tr.len() as int] == x); }
            else { let i = choose|i: int| 0 <= i < tr.len() && #[trigger] tr[i] == x; assert(tr2[i] == x); }
        }
        assert forall|i: int| 0 <= i < tr2.len() implies f2.contains(#[trigger] tr2[i] as int) by { if i < tr.len() { assert(tr2[i] == tr[i]); } }
    }
}
pub proof fn lemma_scan_skip(s: Sh, u: int, c: Set<int>, j: int, k: int, start: int, tr: Seq<u64>)
    requires scan(s, u, c, j, k, start, tr), k < s.v[u].N, !c.contains(k),
    ensures scan(s, u, c, j, k + 1, start, tr),
{
    lemma_scn_skip(s, u, j, k, start);
    lemma_far_step(s, u, c, j, k, k + 1);
}
pub open spec fn minus(c: Set<int>, tr: Seq<u64>, i: int) -> Set<int> { c.filter(|x: int| !inl(tr.take(i), x)) }
pub proof fn lemma_minus(c: Set<int>, tr: Seq<u64>, i: int)
    requires 0 <= i <= tr.len(),
    ensures i < tr.len() ==> minus(c, tr, i + 1) =~= minus(c, tr, i).remove(tr[i] as int), minus(c, tr, 0) =~= c,
{
    if i < tr.len() {
        let a = tr.take(i); let b = tr.take(i + 1);
        assert forall|x: int| #[trigger] inl(b, x) == (inl(a, x) || x == tr[i]) by {
            if inl(a, x) { let k = choose|k: int| 0 <= k < a.len() && #[trigger] a[k] == x; assert(b[k] == x); }
            if inl(b, x) { let k = choose|k: int| 0 <= k < b.len() && #[trigger] b[k] == x; if k < i { assert(a[k] == x); } }
            assert(b[i] == tr[i]);
        }
    }
}
pub proof fn lemma_minus_far(s: Sh, u: int, c: Set<int>, j: int, k: int, start: int, tr: Seq<u64>)
    requires scan(s, u, c, j, k, start, tr),
    ensures minus(c, tr, tr.len() as int) =~= c.difference(far(s, u, c, j, k)),
{
    assert(tr.take(tr.len() as int) =~= tr);
    let f = far(s, u, c, j, k);
    assert forall|x: int| f.contains(x) == inl(tr, x) by {
        if inl(tr, x) { let i = choose|i: int| 0 <= i < tr.len() && #[trigger] tr[i] == x; assert(f.contains(tr[i] as int)); }
    }
}
// R is a clique below u and every member of C extends it
pub open spec fn grow(s: Sh, u: int, r: Set<int>, c: Set<int>) -> bool {
    s.rclq(u, r) && forall|x: int| #[trigger] c.contains(x) ==> !r.contains(x) && s.rclq(u, r.insert(x))
}
pub proof fn lemma_sym(s: Sh, a: int, b: int)
    requires s.ok(), s.adj(a, b), 0 <= b < s.n(),
    ensures s.adj(b, a),
{}
// j joins r, those of c that are adjacent to j stay
pub proof fn lemma_grow_add(s: Sh, u: int, r: Set<int>, c: Set<int>, j: int, d: Set<int>)
    requires s.ok(), 0 <= u < s.n(), grow(s, u, r, c), c.contains(j),
        forall|x: int| #[trigger] d.contains(x) ==> c.contains(x) && x != j && s.adj(s.nb(u, j), s.nb(u, x)),
    ensures grow(s, u, r.insert(j), d), d.len() < c.len(), r.insert(j).len() == r.len() + 1, !r.contains(j), s.rclq(u, r.insert(j)),
{
    let r2 = r.insert(j);
    assert(s.vok(u));
    lemma_len_subset(d, c.remove(j));
    assert forall|x: int| #[trigger] d.contains(x) implies !r2.contains(x) && s.rclq(u, r2.insert(x)) by {
        let q = r2.insert(x);
        assert(s.rclq(u, r.insert(x)) && s.rclq(u, r.insert(j)));
        assert(r.insert(x).contains(x) && r.insert(j).contains(j));
        assert(s.adj(s.nb(u, j), s.nb(u, x)));
        lemma_sym(s, s.nb(u, j), s.nb(u, x));
        assert forall|a: int, b: int| #[trigger] q.contains(a) && #[trigger] q.contains(b) implies s.adj(s.nb(u, a), s.nb(u, b)) by {
            if a != x && b != x { assert(r.insert(j).contains(a) && r.insert(j).contains(b)); }
            else if a != j && b != j { assert(r.insert(x).contains(a) && r.insert(x).contains(b)); }
        }
        assert forall|a: int| #[trigger] q.contains(a) implies 0 <= a < s.v[u].N && s.rin(u, a) by {
            if a != x { assert(r.insert(j).contains(a)); } else { assert(r.insert(x).contains(a)); }
        }
    }
}
pub proof fn lemma_grow_root(s: Sh, u: int)
    requires s.ok(), 1 <= u < s.n(),
    ensures grow(s, u, set![s.v[u].spos], rset0(s, u, s.v[u].N)),
        forall|q: Set<int>| #[trigger] s.rclq(u, q) ==> mid(set![s.v[u].spos], rset0(s, u, s.v[u].N), q),
{
    assert(s.vok(u));
    let p = s.v[u].spos;
    assert(s.nb(u, p) == u);
    assert forall|x: int| 0 <= x < s.v[u].N && s.rin(u, x) implies #[trigger] s.rclq(u, set![p].insert(x)) by {
        let w = s.nb(u, x);
        assert(0 <= w < s.n());
        assert(s.vok(w));
        assert(s.nb(w, s.v[w].spos) == w);
        assert(0 <= s.v[w].spos < s.v[w].N);
        assert(s.adj(w, w)); assert(s.adj(u, u));
        assert(s.adj(u, s.nb(u, x)));
        assert(s.adj(w, u));
    }
    assert(set![p].insert(p) =~= set![p]);
    assert(s.rclq(u, set![p].insert(p)));
}
proof fn lemma_noted(s: Sh, u: int, a: Seq<Dbl>, b: Seq<Dbl>, j: int)
    requires noted(s, u, a, j), 0 <= j < a.len(), j < s.v[u].N,
        s.rin(u, j) && j != s.v[u].spos ==> b.len() == a.len() && b[j]@ == wt(s, u, j) && forall|k: int| 0 <= k < a.len() && k != j ==> #[trigger] b[k] == a[k],
        !(s.rin(u, j) && j != s.v[u].spos) ==> b == a,
    ensures noted(s, u, b, j + 1),
{
    lemma_rset0(s, u, j);
    assert forall|k: int| #[trigger] rset0(s, u, j + 1).contains(k) implies b[k]@ == wt(s, u, k) by {
        if k != j { assert(rset0(s, u, j).contains(k)); assert(b[k] == a[k]); }
    }
}
// the stack is never deeper than the largest clique
proof fn lemma_depth_ok(g: nwgraph, u: int, ids: Seq<int>)
    requires g.gst(), 1 <= u < g.n_vert, ids_ok(g.sh(), u, ids), ids.len() > 0,
    ensures ids.len() <= g.max_depth, ids.to_set().len() == ids.len(), g.sh().rclq(u, ids.to_set()),
{
    lemma_ids_len(g.sh(), u, ids);
    assert(g.sh().rclq(u, ids.to_set()));
}
// every candidate may be chosen below the root
proof fn lemma_cand_in(s: Sh, u: int, ids: Seq<int>, cs: Seq<Set<int>>)
    requires s.ok(), 1 <= u < s.n(), ids_ok(s, u, ids), cs_ok(s, u, ids, cs), sep(ids, cs), cs.len() > 0,
    ensures forall|x: int| #[trigger] cs.last().contains(x) ==> rset0(s, u, s.v[u].N).contains(x) && 0 <= x < s.v[u].N,
{
    assert forall|x: int| #[trigger] cs.last().contains(x) implies rset0(s, u, s.v[u].N).contains(x) && 0 <= x < s.v[u].N by { lemma_p_cut(s, u, ids, cs, x, 0); }
}
