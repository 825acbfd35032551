@lib
// During a search rooted at u only the search memory, u's own bitset and the record of the best clique change.
#[verifier::opaque]
pub open spec fn gsrch(g0: graph, g: graph, u: int) -> bool {
    &&& g == (graph { edge_bits: g.edge_bits, search_cur: g.search_cur, CUR_MAX_CLIQUE_SIZE: g.CUR_MAX_CLIQUE_SIZE,
            CUR_MAX_CLIQUE_LOCATION: g.CUR_MAX_CLIQUE_LOCATION, start_time: g.start_time, ..g0 })
    &&& g0.gst() && 1 <= u < g0.n_vert && g0.search_start <= g0.search_cur <= g.search_cur
    &&& g.edge_bits.gen == g0.edge_bits.gen && g.edge_bits@.len() == g0.edge_bits@.len()
    &&& forall|k: int| 0 <= k < g0.search_cur && !(g0.vertices@[u].ebo <= k < g0.vertices@[u].ebo + blen(g0.vertices@[u].N as int))
        ==> #[trigger] g.edge_bits@[k] == g0.edge_bits@[k]
    &&& g.vsto(u) && g.zeros()
    &&& {
        ||| g.CUR_MAX_CLIQUE_SIZE == g0.CUR_MAX_CLIQUE_SIZE && g.CUR_MAX_CLIQUE_LOCATION == g0.CUR_MAX_CLIQUE_LOCATION && g.store_of(u) == g0.store_of(u)
        ||| g.CUR_MAX_CLIQUE_SIZE > g0.CUR_MAX_CLIQUE_SIZE && g.CUR_MAX_CLIQUE_LOCATION == u && g.store_of(u).len() == g.CUR_MAX_CLIQUE_SIZE
    }
}
// facts about the root of a search
pub proof fn lemma_root(g: graph, u: int)
    requires g.gst(), 1 <= u < g.n_vert,
    ensures ({
        let v = g.vertices@[u]; let s = g.sh(); let bb = blen(v.N as int); let rc = s.rcount(u, v.N as int);
        &&& s.ok() && s.vok(u) && s.v[u] == vsh(v) && g.vlay(u) && g.vsto(u) && s.n() == g.n_vert && s.n() == g.vertices@.len()
        &&& v.spos < v.N <= g.n_vert && g.n_vert <= 0x1_0000_0000 && v.elo + v.N <= g.edge_list@.len() < 0x1000_0000_0000
        &&& 1 <= bb <= v.N && (if v.N % 64 != 0 { 1int } else { 0int }) + v.N / 64 == bb
        &&& 1 <= rc <= v.N && g.search_start + 2 * (rc + 1) * bb <= g.edge_bits@.len() < 0x1000_0000_0000
        &&& v.ebo + bb < g.search_start && v.bits.lo() == v.ebo && v.bits.n() == v.N && v.bits.wfp(g.edge_bits)
        &&& g.search_start <= g.search_cur
        &&& g.search_start + 4 * bb <= g.edge_bits@.len()
    }),
{
    let v = g.vertices@[u]; let s = g.sh(); let bb = blen(v.N as int); let rc = s.rcount(u, v.N as int);
    assert(g.vlay(u) && s.vok(u) && s.v[u] == vsh(v) && g.vroom(u) && g.vsto(u));
    lemma_blen64(v.N);
    lemma_rcount(s, u, v.N as int);
    assert(s.rset(u, v.N as int).contains(v.spos as int));
    let mb = blen(g.max_degree as int);
    assert(2 * (rc + 1) * bb <= 2 * (rc + 1) * mb) by(nonlinear_arith) requires bb <= mb, rc >= 0;
    assert(4 * bb <= 2 * (rc + 1) * bb) by(nonlinear_arith) requires rc >= 1, bb >= 0;
}
pub proof fn lemma_gs_start(g0: graph, u: int)
    requires g0.gwf(), 1 <= u < g0.n_vert,
    ensures gsrch(g0, g0, u), gsrch(g0.base(), g0, u),
{
    reveal(gsrch); assert(g0.vsto(u));
    let b = g0.base();
    assert(b.sh() == g0.sh());
    assert forall|w: int| 0 <= w < b.n_vert implies #[trigger] b.vlay(w) by { assert(g0.vlay(w)); }
    assert forall|w: int| 0 <= w < b.n_vert implies #[trigger] b.vsto(w) by { assert(g0.vsto(w)); }
    assert forall|w: int| 1 <= w < b.n_vert implies #[trigger] b.vroom(w) by { assert(g0.vroom(w)); }
    assert forall|w: int| 0 <= w < b.n_vert implies #[trigger] b.vmcs(w) by { assert(g0.vmcs(w)); }
}
// two searches below the same root, one after the other
pub proof fn lemma_gs_trans(g0: graph, a: graph, b: graph, u: int)
    requires gsrch(g0, a, u), gsrch(a.base(), b, u), g0.search_cur == a.search_start,
    ensures gsrch(g0, b, u), b.CUR_MAX_CLIQUE_SIZE >= a.CUR_MAX_CLIQUE_SIZE,
{
    reveal(gsrch);
    assert(a.base().store_of(u) == a.store_of(u));
}
// search memory [lo, hi) written, bounds of the memory in use moved
pub proof fn lemma_gs_mem(g0: graph, a: graph, b: graph, u: int, lo: int, hi: int)
    requires gsrch(g0, a, u), b == (graph { edge_bits: b.edge_bits, search_cur: b.search_cur, start_time: b.start_time, ..a }),
        b.edge_bits.gen == a.edge_bits.gen, same_outside(a.edge_bits@, b.edge_bits@, lo, hi), g0.search_cur <= lo,
        g0.search_cur <= b.search_cur,
        forall|k: int| b.search_cur <= k < b.edge_bits@.len() ==> #[trigger] b.edge_bits@[k] == 0,
    ensures gsrch(g0, b, u),
{
    reveal(gsrch);
    lemma_root(g0, u);
    let v = g0.vertices@[u];
    lemma_frame(a.edge_bits, b.edge_bits, v.bits, lo, hi);
    assert(a.sh() == b.sh());
}
pub proof fn lemma_gs_zero(g0: graph, a: graph, u: int)
    requires gsrch(g0, a, u),
    ensures a.zeros(), a.edge_bits@.len() == g0.edge_bits@.len(), a.edge_bits.gen == g0.edge_bits.gen, a.sh() == g0.sh(),
        a == (graph { edge_bits: a.edge_bits, search_cur: a.search_cur, CUR_MAX_CLIQUE_SIZE: a.CUR_MAX_CLIQUE_SIZE,
            CUR_MAX_CLIQUE_LOCATION: a.CUR_MAX_CLIQUE_LOCATION, start_time: a.start_time, ..g0 }),
        g0.gst(), 1 <= u < g0.n_vert, a.CUR_MAX_CLIQUE_SIZE >= g0.CUR_MAX_CLIQUE_SIZE, a.search_cur >= g0.search_cur,
        a.vertices@[u].bits.wfp(a.edge_bits),
{ reveal(gsrch); lemma_root(g0, u); }
// q, held by handle r in the search memory, was copied to u's bitset
pub proof fn lemma_gs_record(g0: graph, a: graph, b: graph, u: int, q: Set<int>)
    requires gsrch(g0, a, u), b == (graph { edge_bits: b.edge_bits, CUR_MAX_CLIQUE_SIZE: b.CUR_MAX_CLIQUE_SIZE, CUR_MAX_CLIQUE_LOCATION: b.CUR_MAX_CLIQUE_LOCATION, ..a }),
        b.edge_bits.gen == a.edge_bits.gen, only_block(a.edge_bits, b.edge_bits, a.vertices@[u].bits),
        b.store_of(u) == q, b.vertices@[u].bits.clean(b.edge_bits), g0.sh().rclq(u, q), q.len() > a.CUR_MAX_CLIQUE_SIZE,
        b.CUR_MAX_CLIQUE_SIZE == q.len(), b.CUR_MAX_CLIQUE_LOCATION == u,
    ensures gsrch(g0, b, u),
{
    reveal(gsrch);
    lemma_root(g0, u);
    assert(a.sh() == b.sh());
}
// the end of a search: only mcs of u may have been lowered
pub proof fn lemma_gs_end(g0: graph, a: graph, b: graph, u: int)
    requires gsrch(g0, a, u), a.search_cur == g0.search_cur || a.search_cur <= a.edge_bits@.len(),
        b == (graph { vertices: b.vertices, start_time: b.start_time, ..a }), b.vertices@.len() == a.vertices@.len(),
        forall|w: int| 0 <= w < a.vertices@.len() && w != u ==> #[trigger] b.vertices@[w] == a.vertices@[w],
        b.vertices@[u] == (vertex { mcs: b.vertices@[u].mcs, ..a.vertices@[u] }),
        b.vertices@[u].mcs <= a.vertices@[u].mcs,
        b.vertices@[u].mcs == a.vertices@[u].mcs || forall|q: Set<int>| #[trigger] g0.sh().rclq(u, q) ==> q.len() <= b.vertices@[u].mcs,
    ensures b.gwf(), b.sh() == g0.sh(), searched(g0, graph { search_cur: g0.search_cur, ..b }, u), a.search_cur == g0.search_cur ==> searched(g0, b, u),
{
    reveal(gsrch);
    lemma_root(g0, u);
    let s = g0.sh();
    assert forall|w: int| 0 <= w < a.vertices@.len() implies vsh(#[trigger] a.vertices@[w]) == vsh(b.vertices@[w]) by {
        if w != u { assert(b.vertices@[w] == a.vertices@[w]); }
    }
    lemma_sh_eq(a, b);
    assert(a.sh() == g0.sh());
    assert forall|w: int| 0 <= w < b.n_vert implies #[trigger] b.vlay(w) by { assert(g0.vlay(w)); if w != u { assert(b.vertices@[w] == a.vertices@[w]); } }
    assert forall|w: int| 0 <= w < b.n_vert && w != u implies b.vsto(w) && #[trigger] b.store_of(w) == g0.store_of(w) by { lemma_gs_other(g0, a, u, w); assert(b.vertices@[w] == a.vertices@[w]); }
    assert(b.vsto(u) && b.store_of(u) == a.store_of(u));
    assert forall|w: int| 0 <= w < b.n_vert implies #[trigger] b.vsto(w) by { assert(w == u || b.store_of(w) == g0.store_of(w)); }
    assert forall|w: int| 1 <= w < b.n_vert implies #[trigger] b.vroom(w) by { assert(g0.vroom(w)); }
    assert forall|w: int| 0 <= w < b.n_vert implies #[trigger] b.vmcs(w) by {
        assert(g0.vmcs(w));
        if w != u { assert(b.vertices@[w] == a.vertices@[w]); }
    }
    assert forall|x: int, w: int| 0 <= x < w < b.n_vert implies
            #[trigger] b.vertices@[x].ebo + blen(b.vertices@[x].N as int) <= #[trigger] b.vertices@[w].ebo by {
        assert(g0.vertices@[x].ebo + blen(g0.vertices@[x].N as int) <= g0.vertices@[w].ebo);
        if w != u { assert(b.vertices@[w] == a.vertices@[w]); }
        if x != u { assert(b.vertices@[x] == a.vertices@[x]); }
    }
    let c = graph { search_cur: g0.search_cur, ..b };
    assert(c.sh() == b.sh());
    assert forall|w: int| 0 <= w < g0.n_vert implies #[trigger] c.vertices@[w].mcs <= g0.vertices@[w].mcs by { if w != u { assert(b.vertices@[w] == a.vertices@[w]); } }
    assert forall|w: int| 0 <= w < g0.n_vert && w != u implies #[trigger] c.store_of(w) == g0.store_of(w) by { assert(b.store_of(w) == g0.store_of(w)); }
    assert(c.store_of(u) == a.store_of(u));
}
proof fn lemma_gs_other(g0: graph, a: graph, u: int, w: int)
    requires gsrch(g0, a, u), 0 <= w < g0.n_vert, w != u,
    ensures a.vsto(w), a.store_of(w) == g0.store_of(w),
{
    reveal(gsrch);
    assert(g0.vlay(w) && g0.vlay(u) && g0.vsto(w) && g0.sh().vok(w) && g0.sh().v[w] == vsh(g0.vertices@[w]));
    let x = g0.vertices@[w].bits;
    if w < u { assert(g0.vertices@[w].ebo + blen(g0.vertices@[w].N as int) <= g0.vertices@[u].ebo); }
    else { assert(g0.vertices@[u].ebo + blen(g0.vertices@[u].N as int) <= g0.vertices@[w].ebo); }
    assert forall|i: int| 0 <= i < 64 * blen(x.n()) implies #[trigger] bat(a.edge_bits@, x.lo(), i) == bat(g0.edge_bits@, x.lo(), i) by {
        let k = x.lo() + i / 64;
        assert(x.lo() <= k < x.hi());
        assert(a.edge_bits@[k] == g0.edge_bits@[k]);
    }
    assert(x.n() <= 64 * blen(x.n()));
    assert(x.set_in(a.edge_bits) =~= x.set_in(g0.edge_bits));
    assert(x.clean(a.edge_bits)) by {
        assert forall|i: int| x.valid_len <= i < 64 * blen(x.valid_len as int) implies !#[trigger] bat(a.edge_bits@, x.data.off as int, i) by {
            assert(bat(a.edge_bits@, x.lo(), i) == bat(g0.edge_bits@, x.lo(), i));
        }
    }
    assert(a.sh() == g0.sh());
}
// what a search rooted at u may have changed
pub open spec fn searched(g0: graph, g: graph, u: int) -> bool {
    &&& g.sh() == g0.sh() && g.n_vert == g0.n_vert && g.CLIQUE_LIMIT == g0.CLIQUE_LIMIT && g.search_cur == g0.search_cur && g.search_start == g0.search_start
    &&& g.max_degree == g0.max_degree && g.vertices@[0].mcs == g0.vertices@[0].mcs
    &&& forall|w: int| 0 <= w < g0.n_vert ==> #[trigger] g.vertices@[w].mcs <= g0.vertices@[w].mcs
    &&& forall|w: int| 0 <= w < g0.n_vert && w != u ==> #[trigger] g.store_of(w) == g0.store_of(w)
    &&& {
        ||| g.CUR_MAX_CLIQUE_SIZE == g0.CUR_MAX_CLIQUE_SIZE && g.CUR_MAX_CLIQUE_LOCATION == g0.CUR_MAX_CLIQUE_LOCATION && g.store_of(u) == g0.store_of(u)
        ||| g.CUR_MAX_CLIQUE_SIZE > g0.CUR_MAX_CLIQUE_SIZE && g.CUR_MAX_CLIQUE_LOCATION == u && g.store_of(u).len() == g.CUR_MAX_CLIQUE_SIZE
    }
}
pub open spec fn searched_all(g0: graph, g: graph) -> bool {
    &&& g.sh() == g0.sh() && g.n_vert == g0.n_vert && g.CLIQUE_LIMIT == g0.CLIQUE_LIMIT && g.search_cur == g0.search_cur && g.search_start == g0.search_start
    &&& g.max_degree == g0.max_degree
    &&& {
        ||| g.CUR_MAX_CLIQUE_SIZE == g0.CUR_MAX_CLIQUE_SIZE && g.CUR_MAX_CLIQUE_LOCATION == g0.CUR_MAX_CLIQUE_LOCATION
            && forall|w: int| 0 <= w < g0.n_vert ==> #[trigger] g.store_of(w) == g0.store_of(w)
        ||| g.CUR_MAX_CLIQUE_SIZE > g0.CUR_MAX_CLIQUE_SIZE && 1 <= g.CUR_MAX_CLIQUE_LOCATION < g.n_vert
            && g.store_of(g.CUR_MAX_CLIQUE_LOCATION as int).len() == g.CUR_MAX_CLIQUE_SIZE
    }
}
pub proof fn lemma_all_start(g: graph)
    ensures searched_all(g, g),
{}
pub proof fn lemma_all_step(g0: graph, a: graph, b: graph, u: int)
    requires searched_all(g0, a), searched(a, b, u), 1 <= u < a.n_vert,
    ensures searched_all(g0, b), b.CUR_MAX_CLIQUE_SIZE >= a.CUR_MAX_CLIQUE_SIZE, b.CLIQUE_LIMIT == a.CLIQUE_LIMIT, b.sh() == a.sh(),
{
    let l = a.CUR_MAX_CLIQUE_LOCATION as int;
    if b.CUR_MAX_CLIQUE_SIZE == a.CUR_MAX_CLIQUE_SIZE {
        assert forall|w: int| 0 <= w < a.n_vert implies #[trigger] b.store_of(w) == a.store_of(w) by {}
        if a.CUR_MAX_CLIQUE_SIZE > g0.CUR_MAX_CLIQUE_SIZE { assert(b.store_of(l) == a.store_of(l)); }
        else { assert forall|w: int| 0 <= w < g0.n_vert implies #[trigger] b.store_of(w) == g0.store_of(w) by { assert(a.store_of(w) == g0.store_of(w)); } }
    }
}
// only the clock was read
pub proof fn lemma_tick(g0: graph, a: graph, b: graph)
    requires b == (graph { start_time: b.start_time, ..a }), a.gwf(), searched_all(g0, a),
    ensures b.gwf(), searched_all(g0, b), b.sh() == a.sh(),
{
    assert(b.sh() == a.sh());
    assert forall|w: int| 0 <= w < b.n_vert implies #[trigger] b.vlay(w) by { assert(a.vlay(w)); }
    assert forall|w: int| 0 <= w < b.n_vert implies #[trigger] b.vsto(w) by { assert(a.vsto(w)); }
    assert forall|w: int| 1 <= w < b.n_vert implies #[trigger] b.vroom(w) by { assert(a.vroom(w)); }
    assert forall|w: int| 0 <= w < b.n_vert implies #[trigger] b.vmcs(w) by { assert(a.vmcs(w)); }
    assert forall|w: int| 0 <= w < b.n_vert implies #[trigger] b.store_of(w) == a.store_of(w) by {}
}
// all cliques rooted at vertices before v are known
pub open spec fn done(g: graph, v: int) -> bool {
    forall|u: int, q: Set<int>| 1 <= u < v && u < g.n_vert && #[trigger] g.sh().rclq(u, q) ==> q.len() <= g.CUR_MAX_CLIQUE_SIZE
}
pub open spec fn all_known(g: graph) -> bool {
    forall|q: Set<int>| #[trigger] g.sh().clq(q) ==> q.len() <= g.CUR_MAX_CLIQUE_SIZE
}
pub proof fn lemma_done(g: graph)
    requires g.sh().ok(), g.n_vert == g.sh().n(), done(g, g.n_vert as int),
    ensures all_known(g),
{
    assert forall|q: Set<int>| #[trigger] g.sh().clq(q) implies q.len() <= g.CUR_MAX_CLIQUE_SIZE by {
        if q.len() > 0 {
            lemma_owner(g.sh(), q);
            let (u, k) = choose|u: int, k: Set<int>| 1 <= u < g.sh().n() && #[trigger] g.sh().rclq(u, k) && k.len() >= q.len();
        }
    }
}
