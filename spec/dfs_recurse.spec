@lib
// the cliques between r and r with c have at most m members
#[verifier::opaque]
pub open spec fn below(s: Sh, u: int, r: Set<int>, c: Set<int>, m: int) -> bool {
    forall|q: Set<int>| #[trigger] s.rclq(u, q) && mid(r, c, q) ==> q.len() <= m
}
// q holds a member of c before j
pub open spec fn early(c: Set<int>, j: int, q: Set<int>) -> bool { exists|x: int| x < j && c.contains(x) && #[trigger] q.contains(x) }
#[verifier::opaque]
pub open spec fn seen(s: Sh, u: int, r: Set<int>, c: Set<int>, j: int, m: int) -> bool {
    forall|q: Set<int>| #[trigger] s.rclq(u, q) && mid(r, c, q) && early(c, j, q) ==> q.len() <= m
}
pub open spec fn from(c: Set<int>, j: int) -> Set<int> { c.filter(|x: int| x >= j) }

pub proof fn lemma_grow_small(s: Sh, u: int, r: Set<int>, c: Set<int>, m: int)
    requires grow(s, u, r, c), r.len() + c.len() <= m,
    ensures below(s, u, r, c, m),
{
    reveal(below);
    assert forall|q: Set<int>| #[trigger] s.rclq(u, q) && mid(r, c, q) implies q.len() <= m by {
        lemma_len_subset(q, r.union(c));
        lemma_len_union(r, c);
    }
}
pub proof fn lemma_seen_start(s: Sh, u: int, r: Set<int>, c: Set<int>, m: int)
    requires grow(s, u, r, c), 0 <= s.v[u].N,
    ensures seen(s, u, r, c, 0, m), from(c, 0) =~= c, r.len() <= s.rcount(u, s.v[u].N), c.len() > 0 ==> r.len() + 1 <= s.rcount(u, s.v[u].N),
        forall|x: int| #[trigger] c.contains(x) ==> 0 <= x < s.v[u].N, r.contains(s.v[u].spos),
{
    reveal(seen);
    assert forall|x: int| #[trigger] c.contains(x) implies 0 <= x < s.v[u].N by { assert(r.insert(x).contains(x)); }
    lemma_rclq_bound(s, u, r);
    if c.len() > 0 { let x = c.choose(); assert(c.contains(x)); lemma_rclq_bound(s, u, r.insert(x)); }
}
pub proof fn lemma_from(c: Set<int>, j: int)
    ensures from(c, j).remove(j) =~= from(c, j + 1), !c.contains(j) ==> from(c, j + 1) =~= from(c, j), c.contains(j) == from(c, j).contains(j),
{}
pub proof fn lemma_seen_skip(s: Sh, u: int, r: Set<int>, c: Set<int>, j: int, m: int)
    requires seen(s, u, r, c, j, m), !c.contains(j),
    ensures seen(s, u, r, c, j + 1, m),
{
    reveal(seen);
    assert forall|q: Set<int>| early(c, j + 1, q) implies early(c, j, q) by {}
}
pub proof fn lemma_mono(s: Sh, u: int, r: Set<int>, c: Set<int>, j: int, m: int, m2: int)
    requires seen(s, u, r, c, j, m), m <= m2,
    ensures seen(s, u, r, c, j, m2),
{ reveal(seen); }
pub open spec fn next_c(s: Sh, u: int, c: Set<int>, j: int, k: int) -> Set<int> { from(c, j + 1).difference(far(s, u, from(c, j + 1), j, k)) }
pub proof fn lemma_grow_step(s: Sh, u: int, r: Set<int>, c: Set<int>, j: int)
    requires s.ok(), 0 <= u < s.n(), grow(s, u, r, c), c.contains(j),
    ensures grow(s, u, r.insert(j), next_c(s, u, c, j, s.v[u].N)), next_c(s, u, c, j, s.v[u].N).len() < c.len(), r.insert(j).len() == r.len() + 1,
        !r.contains(j), s.rclq(u, r.insert(j)),
{
    let d = next_c(s, u, c, j, s.v[u].N);
    assert forall|x: int| #[trigger] d.contains(x) implies c.contains(x) && x != j && s.adj(s.nb(u, j), s.nb(u, x)) by {
        assert(r.insert(x).contains(x));
    }
    lemma_grow_add(s, u, r, c, j, d);
}
pub proof fn lemma_seen_step(s: Sh, u: int, r: Set<int>, c: Set<int>, j: int, m: int, m2: int)
    requires grow(s, u, r, c), seen(s, u, r, c, j, m), m <= m2, c.contains(j), below(s, u, r.insert(j), next_c(s, u, c, j, s.v[u].N), m2),
    ensures seen(s, u, r, c, j + 1, m2),
{
    reveal(seen); reveal(below);
    let d = next_c(s, u, c, j, s.v[u].N);
    assert forall|q: Set<int>| #[trigger] s.rclq(u, q) && mid(r, c, q) && early(c, j + 1, q) implies q.len() <= m2 by {
        if !early(c, j, q) {
            let x = choose|x: int| x < j + 1 && c.contains(x) && #[trigger] q.contains(x);
            assert(x == j);
            assert forall|y: int| #[trigger] q.contains(y) implies r.insert(j).contains(y) || d.contains(y) by {
                if c.contains(y) && y != j { assert(y >= j + 1); assert(s.adj(s.nb(u, j), s.nb(u, y))); }
            }
            assert(mid(r.insert(j), d, q));
        }
    }
}
pub proof fn lemma_seen_end(s: Sh, u: int, r: Set<int>, c: Set<int>, m: int)
    requires grow(s, u, r, c), seen(s, u, r, c, s.v[u].N, m), c.len() > 0,
    ensures below(s, u, r, c, m),
{
    reveal(seen); reveal(below);
    let x = c.choose();
    assert(c.contains(x));
    assert(r.insert(x).contains(x));
    assert(early(c, s.v[u].N, r.insert(x)));
    assert(mid(r, c, r.insert(x)));
    assert forall|q: Set<int>| #[trigger] s.rclq(u, q) && mid(r, c, q) implies q.len() <= m by {
        if exists|y: int| c.contains(y) && #[trigger] q.contains(y) {
            assert(early(c, s.v[u].N, q));
        } else {
            lemma_len_subset(q, r.insert(x));
        }
    }
}
// the words of [lo, hi) outside the block of x are the same
pub open spec fn keeps(a: Mem, b: Mem, lo: int, hi: int, x: graphBits) -> bool {
    &&& a.gen == b.gen && a@.len() == b@.len()
    &&& forall|k: int| lo <= k < hi && !(x.lo() <= k < x.hi()) ==> #[trigger] b@[k] == a@[k]
}
pub open spec fn apart(x: graphBits, y: graphBits) -> bool { x.hi() <= y.lo() || y.hi() <= x.lo() }
// a handle of length n inside [lo, hi)
pub open spec fn within(m: Mem, x: graphBits, n: int, lo: int, hi: int) -> bool { x.wf(m) && x.n() == n && lo <= x.lo() && x.hi() <= hi }
// inside a call: r and c are what it was called with
pub open spec fn lvl(g0: graph, g1: graph, g: graph, u: int, prev: graphBits, res: graphBits, r: Set<int>, cr: Set<int>) -> bool {
    let n = g0.sh().v[u].N;
    &&& gsrch(g0, g, u) && g1.search_start == g0.search_start && g0 == g1.base() && g1.gwf()
    &&& within(g.edge_bits, res, n, g0.search_start as int, g1.search_cur as int) && res.set_in(g.edge_bits) == cr
    &&& within(g1.edge_bits, prev, n, g0.search_start as int, g1.search_cur as int) && apart(prev, res)
    &&& keeps(g1.edge_bits, g.edge_bits, g0.search_start as int, g1.search_cur as int, res)
    &&& g1.search_cur == g1.search_start + 2 * r.len() * blen(n)
    &&& g1.search_cur + 2 * blen(n) <= g.edge_bits@.len()
    &&& g.CUR_MAX_CLIQUE_SIZE >= g1.CUR_MAX_CLIQUE_SIZE && g.start_time.last@ >= g1.start_time.last@
    &&& g.vertices@ == g1.vertices@ && g.edge_list@ == g1.edge_list@ && g.CLIQUE_LIMIT == g1.CLIQUE_LIMIT && u < g.vertices@.len() && g.vertices@[u].N == n
}
// search memory from lo on was written, res excepted or not
pub proof fn lemma_lvl_mem(g0: graph, g1: graph, a: graph, b: graph, u: int, prev: graphBits, res: graphBits, r: Set<int>, cr: Set<int>, cr2: Set<int>, lo: int, hi: int)
    requires lvl(g0, g1, a, u, prev, res, r, cr), b == (graph { edge_bits: b.edge_bits, search_cur: b.search_cur, start_time: b.start_time, ..a }),
        b.edge_bits.gen == a.edge_bits.gen, same_outside(a.edge_bits@, b.edge_bits@, lo, hi),
        b.start_time.last@ >= a.start_time.last@,
        g1.search_cur <= lo && cr2 == cr || lo == res.lo() && hi == res.hi() && res.wf(b.edge_bits) && res.set_in(b.edge_bits) == cr2,
        g0.search_cur <= b.search_cur,
        forall|k: int| b.search_cur <= k < b.edge_bits@.len() ==> #[trigger] b.edge_bits@[k] == 0,
    ensures lvl(g0, g1, b, u, prev, res, r, cr2),
{
    lemma_gs_mem(g0, a, b, u, lo, hi);
    if g1.search_cur <= lo { lemma_frame(a.edge_bits, b.edge_bits, res, lo, hi); }
    assert(keeps(g1.edge_bits, b.edge_bits, g0.search_start as int, g1.search_cur as int, res)) by {
        assert forall|k: int| g0.search_start <= k < g1.search_cur && !(res.lo() <= k < res.hi()) implies #[trigger] b.edge_bits@[k] == g1.edge_bits@[k] by {
            assert(a.edge_bits@[k] == g1.edge_bits@[k]);
        }
    }
}
pub open spec fn stopped(g: graph, d: RecursionDFS) -> bool { g.CUR_MAX_CLIQUE_SIZE >= g.CLIQUE_LIMIT || g.start_time.last@ > d.TIME_LIMIT@ }
proof fn lemma_bound(bb: int, l: int, rc: int)
    requires bb >= 1, 0 <= l <= rc,
    ensures 2 * l * bb + 2 * bb <= 2 * (rc + 1) * bb, 2 * l * bb >= 0, 2 * (l + 1) * bb == 2 * l * bb + 2 * bb,
{
    assert(2 * l * bb + 2 * bb <= 2 * (rc + 1) * bb && 2 * l * bb >= 0 && 2 * (l + 1) * bb == 2 * l * bb + 2 * bb) by(nonlinear_arith) requires bb >= 1, 0 <= l <= rc;
}
// nothing but the clock has changed
proof fn lemma_early(g0: graph, g1: graph, g: graph, u: int, prev: graphBits, res: graphBits)
    requires g1.gwf(), g0 == g1.base(), 1 <= u < g1.n_vert, g == (graph { edge_bits: g.edge_bits, start_time: g.start_time, ..g1 }), g.edge_bits.gen == g1.edge_bits.gen, g.edge_bits@ =~= g1.edge_bits@,
        g.start_time.last@ >= g1.start_time.last@,
        within(g1.edge_bits, prev, g0.sh().v[u].N, g1.search_start as int, g1.search_cur as int),
        within(g1.edge_bits, res, g0.sh().v[u].N, g1.search_start as int, g1.search_cur as int), apart(prev, res),
        g1.search_cur == g1.search_start + 2 * res.set_in(g1.edge_bits).len() * blen(g0.sh().v[u].N),
        g1.search_cur + 2 * blen(g0.sh().v[u].N) <= g1.edge_bits@.len(),
    ensures lvl(g0, g1, g, u, prev, res, res.set_in(g1.edge_bits), res.set_in(g1.edge_bits)), prev.wf(g.edge_bits), prev.set_in(g.edge_bits) == prev.set_in(g1.edge_bits),
        gsrch(g0, g, u), g.zeros(),
{
    lemma_gs_start(g1, u); lemma_root(g1, u);
    lemma_gs_mem(g0, g1, g, u, g1.search_cur as int, g1.search_cur as int);
    lemma_frame(g1.edge_bits, g.edge_bits, prev, 0, 0); lemma_frame(g1.edge_bits, g.edge_bits, res, 0, 0);
}
proof fn lemma_lvl_call(g0: graph, g1: graph, a: graph, b: graph, u: int, prev: graphBits, res: graphBits, r: Set<int>, cr: Set<int>)
    requires lvl(g0, g1, a, u, prev, res, r, cr), gsrch(a.base(), b, u), keeps(a.edge_bits, b.edge_bits, a.search_start as int, a.search_cur as int, res),
        res.wf(b.edge_bits), res.set_in(b.edge_bits) == cr, b.start_time.last@ >= a.start_time.last@, a.search_cur >= g1.search_cur,
    ensures lvl(g0, g1, b, u, prev, res, r, cr), b.zeros(),
{
    lemma_gs_zero(a.base(), b, u);
    lemma_gs_zero(g0, a, u);
    lemma_gs_trans(g0, a, b, u);
    assert(keeps(g1.edge_bits, b.edge_bits, g0.search_start as int, g1.search_cur as int, res)) by {
        assert forall|k: int| g0.search_start <= k < g1.search_cur && !(res.lo() <= k < res.hi()) implies #[trigger] b.edge_bits@[k] == g1.edge_bits@[k] by {
            assert(a.edge_bits@[k] == g1.edge_bits@[k]);
        }
    }
}

@fn RecursionDFS::search_vertex(G, cur, prev_cand, res)
@locals u64 j, u64 k, u64 vert, u64 start, u64 ans, graphBits cand, graphBits future_cand
@requires
    old(G).gwf(), 1 <= cur < old(G).n_vert, self.request_size == blen(old(G).sh().v[cur as int].N),
    within(old(G).edge_bits, *prev_cand, old(G).sh().v[cur as int].N, old(G).search_start as int, old(G).search_cur as int),
    within(old(G).edge_bits, *res, old(G).sh().v[cur as int].N, old(G).search_start as int, old(G).search_cur as int), apart(*prev_cand, *res),
    grow(old(G).sh(), cur as int, res.set_in(old(G).edge_bits), prev_cand.set_in(old(G).edge_bits)),
    old(G).search_cur == old(G).search_start + 2 * res.set_in(old(G).edge_bits).len() * blen(old(G).sh().v[cur as int].N),
@ensures
    gsrch(old(G).base(), *final(G), cur as int), final(G).search_cur == old(G).search_cur,
    keeps(old(G).edge_bits, final(G).edge_bits, old(G).search_start as int, old(G).search_cur as int, *res),
    res.wf(final(G).edge_bits), res.set_in(final(G).edge_bits) == res.set_in(old(G).edge_bits),
    final(G).start_time.last@ >= old(G).start_time.last@, final(G).CUR_MAX_CLIQUE_SIZE >= old(G).CUR_MAX_CLIQUE_SIZE,
    stopped(*final(G), *self)
        || below(old(G).sh(), cur as int, res.set_in(old(G).edge_bits), prev_cand.set_in(old(G).edge_bits), final(G).CUR_MAX_CLIQUE_SIZE as int),
@decreases
    prev_cand.set_in(old(G).edge_bits).len()
@loop 1
@invariant
    u == cur, s == g0.sh(), n == s.v[u].N, 1 <= u < s.n(), r == res.set_in(g1.edge_bits), c == prev_cand.set_in(g1.edge_bits), g1 == *old(G), self.request_size == bb, bb == blen(n), bb >= 1, r.len() <= s.rcount(u, n),
    c.len() > 0, grow(s, u, r, c), j <= n, lvl(g0, g1, *G, u, *prev_cand, *res, r, r),
    G.search_cur == g1.search_cur + 2 * blen(n), cand.lo() == g1.search_cur, future_cand.lo() == g1.search_cur + blen(n),
    cand.wf(G.edge_bits), cand.n() == n, future_cand.wfp(G.edge_bits), future_cand.n() == n, cand.set_in(G.edge_bits) == from(c, j as int),
    stopped(*G, *self) || seen(s, u, r, c, j as int, G.CUR_MAX_CLIQUE_SIZE as int),
@loop_decreases
    n - j
@loop 2
@invariant
    u == cur, s == g0.sh(), s.ok(), n == s.v[u].N, G.sh() == s, s.n() == G.vertices@.len(), G.vertices@[u].N == n, u < G.vertices@.len(), vert == s.nb(u, j as int),
    *G == (graph { edge_bits: G.edge_bits, ..g2 }), g2.edge_bits.gen == G.edge_bits.gen, same_outside(g2.edge_bits@, G.edge_bits@, future_cand.lo(), future_cand.hi()),
    future_cand.wf(G.edge_bits), future_cand.n() == n, future_cand.set_in(G.edge_bits) == c2.difference(far(s, u, c2, j as int, k as int)),
    scn(s, u, j as int, k as int, start as int),
@loop_decreases
    n - k
@at begin
    let ghost g1 = *G; let ghost g0 = G.base(); let ghost s = G.sh(); let ghost u = cur as int; let ghost n = s.v[u].N;
    let ghost r = res.set_in(G.edge_bits); let ghost c = prev_cand.set_in(G.edge_bits); let ghost mut c2 = c; let ghost mut g2 = *G; let ghost bb = blen(n);
    proof {
        lemma_root(g1, u); lemma_gs_start(g1, u); lemma_seen_start(s, u, r, c, 0);
        lemma_bound(bb, r.len() as int, s.rcount(u, n));
        assert(r.len() <= n && c.len() <= n) by { lemma_len_subset(c, Set::range(0, n)); }
    }
@at before /^\s*return;/ 1
    proof { lemma_early(g0, g1, *G, u, *prev_cand, *res); }
@at before /^\s*return;/ 2
    proof { lemma_early(g0, g1, *G, u, *prev_cand, *res); }
@at before /^\s*return;/ 3
    proof { lemma_early(g0, g1, *G, u, *prev_cand, *res); lemma_grow_small(s, u, r, c, G.CUR_MAX_CLIQUE_SIZE as int); }
@at before /\.bits\.copy_data\(res/
    let ghost ga = *G;
    proof { lemma_early(g0, g1, *G, u, *prev_cand, *res); }
@at before /^\s*return;/ 4
    proof {
        lemma_gs_record(g0, ga, *G, u, r);
        lemma_frame(ga.edge_bits, G.edge_bits, *res, G.vertices@[u].bits.lo(), G.vertices@[u].bits.hi());
        lemma_grow_small(s, u, r, c, G.CUR_MAX_CLIQUE_SIZE as int);
    }
@at before /let mut cand: graphBits/
    let ghost ga = *G;
    proof { lemma_early(g0, g1, *G, u, *prev_cand, *res); }
@at after /cand\.copy_from/ 1
    let ghost gb = *G;
@at loop 1 before
    proof {
        lemma_lvl_mem(g0, g1, ga, *G, u, *prev_cand, *res, r, r, r, g1.search_cur as int, g1.search_cur + 2 * bb);
        lemma_frame(gb.edge_bits, G.edge_bits, cand, future_cand.lo(), future_cand.hi());
        lemma_seen_start(s, u, r, c, G.CUR_MAX_CLIQUE_SIZE as int);
    }
@at loop 1 begin
    let ghost gj = *G; let ghost m1 = G.CUR_MAX_CLIQUE_SIZE as int;
    proof {
        lemma_gs_zero(g0, *G, u); lemma_root(g0, u); lemma_from(c, j as int);
        if !c.contains(j as int) && !stopped(*G, *self) { lemma_seen_skip(s, u, r, c, j as int, m1); }
        if c.contains(j as int) { lemma_grow_step(s, u, r, c, j as int); lemma_scn_start(s, u, j as int, j + 1); }
        c2 = from(c, j + 1);
    }
@at before /res\.set\(j, /
    let ghost gr = *G;
    proof { lemma_lvl_mem(g0, g1, gj, gr, u, *prev_cand, *res, r, r, r, g1.search_cur as int, g1.search_cur + 2 * bb); }
@at after /res\.set\(j, /
    let ghost gs = *G;
    proof {
        lemma_lvl_mem(g0, g1, gr, *G, u, *prev_cand, *res, r, r, r.insert(j as int), res.lo(), res.hi());
        lemma_frame(gr.edge_bits, G.edge_bits, cand, res.lo(), res.hi());
    }
@at before /future_cand\.copy_data\(/
    let ghost gt = *G;
@at loop 2 before
    proof {
        g2 = *G;
        lemma_frame(gt.edge_bits, G.edge_bits, cand, future_cand.lo(), future_cand.hi());
        assert(far(s, u, c2, j as int, k as int) =~= Set::empty());
        assert(c2.difference(far(s, u, c2, j as int, k as int)) =~= c2);
    }
@at loop 2 begin
    let ghost st = start; let ghost gk = *G;
    proof { lemma_scn_pre(*G, s, u, j as int, k as int, start as int); lemma_far_step(s, u, c2, j as int, k as int, k + 1); }
@at loop 2 body_end
    proof {
        if c2.contains(k as int) { lemma_scn_step(*G, s, u, j as int, k as int, st as int, ans as int, k + 1); }
        else { lemma_scn_skip(s, u, j as int, k as int, st as int); }
        assert(future_cand.set_in(G.edge_bits) =~= c2.difference(far(s, u, c2, j as int, k + 1)));
    }
@at loop 2 after
    let ghost gc = *G;
    proof {
        lemma_lvl_mem(g0, g1, gs, *G, u, *prev_cand, *res, r, r.insert(j as int), r.insert(j as int), g1.search_cur as int, g1.search_cur + 2 * bb);
        lemma_frame(g2.edge_bits, G.edge_bits, cand, future_cand.lo(), future_cand.hi());
        lemma_gs_end(g0, *G, *G, u);
        lemma_bound(bb, r.len() as int, s.rcount(u, n));
    }
@at before /res\.reset\(j, /
    let ghost gd = *G;
    proof {
        lemma_lvl_call(g0, g1, gc, *G, u, *prev_cand, *res, r, r.insert(j as int));
        lemma_same(gc.edge_bits, G.edge_bits, cand);
        assert(r.insert(j as int).remove(j as int) =~= r);
    }
@at after /res\.reset\(j, /
    proof {
        lemma_lvl_mem(g0, g1, gd, *G, u, *prev_cand, *res, r, r.insert(j as int), r, res.lo(), res.hi());
        lemma_frame(gd.edge_bits, G.edge_bits, cand, res.lo(), res.hi());
        if !stopped(*G, *self) { lemma_seen_step(s, u, r, c, j as int, m1, G.CUR_MAX_CLIQUE_SIZE as int); }
    }
@at loop 1 after
    let ghost ge = *G;
    proof { lemma_gs_zero(g0, *G, u); }
@at end
    proof {
        lemma_lvl_mem(g0, g1, ge, *G, u, *prev_cand, *res, r, r, r, g1.search_cur as int, g1.search_cur + 2 * bb);
        if !stopped(*G, *self) { lemma_seen_end(s, u, r, c, G.CUR_MAX_CLIQUE_SIZE as int); }
    }

@lib
// a search was made below the root
proof fn lemma_root_done(s: Sh, u: int, m: int)
    requires s.ok(), 1 <= u < s.n(), below(s, u, set![s.v[u].spos], rset0(s, u, s.v[u].N), m),
    ensures forall|q: Set<int>| #[trigger] s.rclq(u, q) ==> q.len() <= m,
{ reveal(below); lemma_grow_root(s, u); }

@fn RecursionDFS::process_vertex(G, cur)
@locals u64 j, u64 vert, u64 clique_potential, graphBits res, graphBits cand
@requires
    old(G).gwf(), 1 <= cur < old(G).n_vert, old(G).search_cur == old(G).search_start, old(G).CUR_MAX_CLIQUE_SIZE >= 1,
@ensures
    final(G).gwf(), searched(*old(G), *final(G), cur as int), final(G).start_time.last@ >= old(G).start_time.last@,
    *final(self) == (RecursionDFS { request_size: final(self).request_size, ..*old(self) }),
    stopped(*final(G), *final(self))
        || forall|q: Set<int>| #[trigger] old(G).sh().rclq(cur as int, q) ==> q.len() <= final(G).CUR_MAX_CLIQUE_SIZE,
@loop 1
@invariant
    g0.gwf(), u == cur, 1 <= cur < g0.n_vert, s == g0.sh(), n == s.v[u].N, G.vertices@ == g0.vertices@, cur < G.vertices@.len(),
    self.request_size == blen(n), j <= G.vertices@[u].spos < n, G.vertices@[u].N == n, x.res == res, x.cand == cand, G.start_time == g0.start_time,
    rooti(g0, *G, x, u, b, true, j as int, clique_potential as int),
@loop_decreases
    G.vertices@[u].spos - j
@loop 2
@invariant
    g0.gwf(), u == cur, 1 <= cur < g0.n_vert, s == g0.sh(), n == s.v[u].N, G.vertices@ == g0.vertices@, cur < G.vertices@.len(),
    self.request_size == blen(n), s.v[u].spos < j <= n, G.vertices@[u].N == n, x.res == res, x.cand == cand, G.start_time == g0.start_time,
    rooti(g0, *G, x, u, b, true, j as int, clique_potential as int),
@loop_decreases
    n - j
@at begin
    let ghost g0 = *G; let ghost s = G.sh(); let ghost u = cur as int; let ghost n = s.v[u].N; let ghost b = G.search_cur as int;
    proof { lemma_root(g0, u); lemma_grow_root(s, u); }
@at loop 1 before
    let ghost x = SearchState { id: G.vertices@[u].spos, start_at: 0, res: res, cand: cand };
    proof { lemma_root_init(g0, graph { search_cur: G.search_cur, ..g0 }, *G, x, u, b, true); }
@at loop 1 begin
    let ghost ga = *G;
    proof { lemma_gs_zero(g0, *G, u); lemma_count_step(*G, u, j as int); }
@at loop 1 body_end
    proof {
        if s.rin(u, j as int) { lemma_root_set(g0, ga, *G, x, u, b, true, j as int, clique_potential - 1); }
        else { lemma_root_skip(g0, *G, x, u, b, true, j as int, clique_potential as int); }
    }
@at loop 1 after
    proof { lemma_root_skip(g0, *G, x, u, b, true, j as int, clique_potential as int); }
@at loop 2 begin
    let ghost ga = *G;
    proof { lemma_gs_zero(g0, *G, u); lemma_count_step(*G, u, j as int); }
@at loop 2 body_end
    proof {
        if s.rin(u, j as int) { lemma_root_set(g0, ga, *G, x, u, b, true, j as int, clique_potential - 1); }
        else { lemma_root_skip(g0, *G, x, u, b, true, j as int, clique_potential as int); }
    }
@at loop 2 after
    let ghost gr = *G; let ghost mut g9 = *G;
    proof {
        lemma_gs_zero(g0, *G, u); lemma_root(g0, u);
        lemma_gs_end(g0, *G, *G, u);
        assert(g0.base() == g0);
        assert forall|q: Set<int>| #[trigger] s.rclq(u, q) implies q.len() <= clique_potential by { lemma_root_small(s, u, q); }
    }
@at after /self\.search_vertex\(/
    proof {
        g9 = *G;
        lemma_gs_trans(g0, gr, *G, u);
        if !stopped(*G, *self) { lemma_root_done(s, u, G.CUR_MAX_CLIQUE_SIZE as int); }
        lemma_gs_zero(g0, *G, u);
    }
@at end
    proof {
        let gz = graph { vertices: g9.vertices, ..*G };
        lemma_gs_mem(g0, g9, gz, u, b, b + 2 * blen(n));
        lemma_gs_end(g0, gz, *G, u);
    }

@fn RecursionDFS::process_graph(G)
@locals u64 i
@requires
    old(G).gwf(), old(G).n_vert >= 2, old(G).search_cur == old(G).search_start, old(G).CUR_MAX_CLIQUE_SIZE >= 1, 
@ensures
    final(G).gwf(), searched_all(*old(G), *final(G)), r >= old(self).start_vertex, r < final(G).n_vert ==> final(G).start_time.last@ > old(self).TIME_LIMIT@,
    final(G).CUR_MAX_CLIQUE_SIZE >= final(G).CLIQUE_LIMIT || !done(*old(G), old(self).start_vertex as int) || done(*final(G), r as int),
@loop 1
@invariant
    G.gwf(), G.n_vert >= 2, searched_all(*old(G), *G), old(G).search_cur == old(G).search_start, old(G).CUR_MAX_CLIQUE_SIZE >= 1, old(self).start_vertex <= i,
    *self == (RecursionDFS { request_size: self.request_size, ..*old(self) }),
    G.CUR_MAX_CLIQUE_SIZE >= G.CLIQUE_LIMIT || !done(*old(G), old(self).start_vertex as int) || done(*G, i as int),
@loop_ensures
    G.gwf(), searched_all(*old(G), *G), old(self).start_vertex <= i, i < G.n_vert ==> G.start_time.last@ > self.TIME_LIMIT@,
    G.CUR_MAX_CLIQUE_SIZE >= G.CLIQUE_LIMIT || !done(*old(G), old(self).start_vertex as int) || done(*G, i as int),
@loop_decreases
    G.n_vert - i
@at begin
    proof { lemma_root(*G, 1); lemma_all_start(*G); }
@at loop 1 before
    proof { lemma_all_step(*old(G), *old(G), *G, old(G).CUR_MAX_CLIQUE_LOCATION as int); }
@at loop 1 begin
    let ghost ga = *G; let ghost mut gc = *G;
    proof { lemma_root(*G, 1); assert(G.vmcs(i as int)); }
@at before /^\s*break;/ 1
    proof { lemma_tick(*old(G), ga, *G); }
@at before /self\.process_vertex\(G, i\)/
    let ghost gb = *G;
    proof { lemma_tick(*old(G), ga, *G); }
@at after /self\.process_vertex\(G, i\)/
    proof { gc = *G; lemma_all_step(*old(G), gb, *G, i as int); }
@at before /^\s*break;/ 2
    proof { lemma_tick(*old(G), gc, *G); }
@at loop 1 body_end
    proof { lemma_tick(*old(G), gc, *G); }

@fn RecursionDFS::new_u_d(start, limit)
@ensures
    r.start_vertex == start, r.TIME_LIMIT == limit,
