@lib
pub open spec fn vsh(v: wvertex) -> VS { VS { N: v.N as int, spos: v.spos as int, elo: v.elo as int, ebo: v.ebo as int, key: v.degree@, w: v.weight@ } }
pub open spec fn vshs(vs: Seq<wvertex>) -> Seq<VS> { Seq::new(vs.len(), |u: int| vsh(vs[u])) }

impl nwgraph {
    pub open spec fn sh(self) -> Sh { Sh { el: self.edge_list@, v: vshs(self.vertices@) } }
    // the bitset of vertex u lies in its own block of edge_bits
    pub open spec fn vlay(self, u: int) -> bool {
        let v = self.vertices@[u];
        &&& v.bits.data.off == v.ebo && v.bits.valid_len == v.N && v.bits.data.gen@ == self.edge_bits.gen@
        &&& v.bits.pad_cover == pad_of(v.N as int)
        &&& v.ebo + blen(v.N as int) <= self.eb_size
        &&& v.N <= self.max_neighbors
    }
    pub open spec fn lay(self) -> bool {
        &&& self.sh().ok() && self.n_vert == self.vertices@.len()
        &&& forall|u: int| 0 <= u < self.n_vert ==> #[trigger] self.vlay(u)
        &&& forall|u: int, w: int| 0 <= u < w < self.n_vert ==>
            #[trigger] self.vertices@[u].ebo + blen(self.vertices@[u].N as int) <= #[trigger] self.vertices@[w].ebo
        &&& self.max_neighbors <= self.n_vert
        &&& self.eb_size <= self.edge_bits@.len() < 0x1000_0000_0000
        &&& self.search_start == 1 + self.eb_size && self.search_end == self.edge_bits@.len()
    }
    // enough space for the deepest search
    pub open spec fn room(self) -> bool {
        &&& self.search_start + 2 * (self.max_depth + 1) * blen(self.max_neighbors as int) <= self.edge_bits@.len()
        &&& self.search_start <= self.search_cur <= self.edge_bits@.len()
        &&& forall|u: int, q: Set<int>| 1 <= u < self.n_vert && #[trigger] self.sh().rclq(u, q) ==> q.len() <= self.max_depth
    }
    // what is stored for u is a clique
    pub open spec fn vsto(self, u: int) -> bool {
        let v = self.vertices@[u];
        &&& v.bits.clean(self.edge_bits)
        &&& v.bits.set_in(self.edge_bits).len() > 0
        &&& self.sh().iclq(u, v.bits.set_in(self.edge_bits))
    }
    pub open spec fn stored(self) -> bool { forall|u: int| 0 <= u < self.n_vert ==> #[trigger] self.vsto(u) }
    pub open spec fn zeros(self) -> bool {
        forall|k: int| self.search_cur <= k < self.edge_bits@.len() ==> #[trigger] self.edge_bits@[k] == 0
    }
    // mcs bounds the weight of the cliques found by a search rooted at u
    pub open spec fn vmcs(self, u: int) -> bool {
        wpos(self.sh()) ==> forall|q: Set<int>| #[trigger] self.sh().rclq(u, q) ==> wof(self.sh(), u, q) <= self.vertices@[u].mcs@
    }
    // the degree of u is the weight of its list
    pub open spec fn vdeg(self, u: int) -> bool {
        self.vertices@[u].degree@ == wof(self.sh(), u, Set::range(0, self.vertices@[u].N as int)) && self.vertices@[u].degree@ <= self.max_degree@
    }
    pub open spec fn degok(self) -> bool { forall|u: int| 0 <= u < self.n_vert ==> #[trigger] self.vdeg(u) }
    pub open spec fn mcsok(self) -> bool { forall|u: int| 1 <= u < self.n_vert ==> #[trigger] self.vmcs(u) }
    pub open spec fn locok(self) -> bool { self.n_vert >= 2 ==> 1 <= self.CUR_MAX_CLIQUE_LOCATION < self.n_vert }
    // everything a finished graph guarantees between operations
    pub open spec fn gst(self) -> bool {
        self.lay() && self.room() && self.stored() && self.mcsok() && self.locok() && self.degok()
    }
    pub open spec fn gwf(self) -> bool { self.gst() && self.zeros() }
    pub open spec fn base(self) -> nwgraph { nwgraph { search_cur: self.search_start, ..self } }
    pub open spec fn store_of(self, u: int) -> Set<int> { self.vertices@[u].bits.set_in(self.edge_bits) }
}

pub proof fn lemma_sh_eq(a: nwgraph, b: nwgraph)
    requires a.edge_list@ == b.edge_list@, a.vertices@.len() == b.vertices@.len(),
        forall|u: int| 0 <= u < a.vertices@.len() ==> vsh(#[trigger] a.vertices@[u]) == vsh(b.vertices@[u]),
    ensures a.sh() == b.sh(),
{ assert(vshs(a.vertices@) =~= vshs(b.vertices@)); }

@fn wvertex::load(N, elo, ebo, eb_base, spos, wt, deg)
@requires
    eb_base.gen@ == old(mem).gen@, eb_base.off == 0, spos < N < 0x1_0000_0000_0000,
    ebo + blen(N as int) <= old(mem)@.len() < 0x1_0000_0000_0000,
@ensures
    final(self).N == N, final(self).elo == elo, final(self).ebo == ebo, final(self).spos == spos,
    final(self).weight@ == wt@, final(self).degree@ == deg@, final(self).mcs@ == wt@,
    final(self).bits.data.off == final(self).ebo, final(self).bits.valid_len == final(self).N, final(self).bits.wfp(*final(mem)),
    only_block(*old(mem), *final(mem), final(self).bits),
    forall|k: int| 0 <= k < 64 * blen(final(self).N as int) ==>
        #[trigger] bat(final(mem)@, final(self).ebo as int, k) == (bat(old(mem)@, final(self).ebo as int, k) || k == spos),

@fn wvertex::give_clique(el_base)
@requires
    self.bits.wfp(*old(mem)), self.bits.valid_len == self.N, el_base_off + self.elo + self.N <= el_base@.len() < 0x1_0000_0000_0000,
@ensures
    r@ == pick(old(mem)@, self.bits.lo(), el_base@, el_base_off + self.elo, self.N as int),
    r@.len() == self.bits.set_in(*old(mem)).len(),
    only_block(*old(mem), *final(mem), self.bits),
    self.bits.clean(*old(mem)) ==> final(mem)@ =~= old(mem)@,

@fn nwgraph::load_memory(N)
@requires
    old(self).search_cur < old(self).edge_bits@.len(), old(self).search_cur + N <= old(self).edge_bits@.len() < 0x1000_0000_0000,
@ensures
    r.off == old(self).search_cur, r.gen == old(self).edge_bits.gen,
    *final(self) == (nwgraph { search_cur: (old(self).search_cur + N) as u64, ..*old(self) }),

@fn nwgraph::clear_memory(N)
@locals u64 i
@requires
    N <= old(self).search_cur <= old(self).edge_bits@.len() < 0x1000_0000_0000,
@ensures
    final(self).edge_bits.gen == old(self).edge_bits.gen, final(self).search_cur == old(self).search_cur - N,
    same_outside(old(self).edge_bits@, final(self).edge_bits@, old(self).search_cur - N, old(self).search_cur as int),
    forall|k: int| final(self).search_cur <= k < old(self).search_cur ==> #[trigger] final(self).edge_bits@[k] == 0,
    *final(self) == (nwgraph { search_cur: final(self).search_cur, edge_bits: final(self).edge_bits, ..*old(self) }),
@loop 1
@invariant
    i <= N, N <= old(self).search_cur <= old(self).edge_bits@.len() < 0x1000_0000_0000,
    self.search_cur == old(self).search_cur - N, self.edge_bits.gen == old(self).edge_bits.gen,
    same_outside(old(self).edge_bits@, self.edge_bits@, old(self).search_cur - N, old(self).search_cur as int),
    forall|k: int| self.search_cur <= k < self.search_cur + i ==> #[trigger] self.edge_bits@[k] == 0,
    *self == (nwgraph { search_cur: self.search_cur, edge_bits: self.edge_bits, ..*old(self) }),
@loop_decreases
    N - i

@fn nwgraph::find_if_neighbors(v1_id, v2_id, v2_position)
@requires
    self.sh().ok(), v1_id < self.vertices@.len(),
@ensures
    r == FOUND || r == NOT_FOUND,
    (r == FOUND) == self.sh().adj(v1_id as int, v2_id as int),
@at begin
    proof { lemma_run(*self, v1_id as int, v2_id); }

@fn nwgraph::new()
@ensures
    r.n_vert == 0, r.el_size == 0, r.eb_size == 0, r.max_neighbors == 0, r.search_start == 0, r.search_end == 0, r.max_degree@ == 0real,
    r.CUR_MAX_CLIQUE_LOCATION == 0, r.CUR_MAX_CLIQUE_SIZE@ == 0real, r.edge_list@.len() == 0, r.edge_bits@.len() == 0, r.vertices@.len() == 0,

@fn nwgraph::get_max_clique_u(i)
@requires
    old(self).lay(), old(self).stored(), 1 <= i < old(self).n_vert,
@ensures
    clq_list(old(self).sh(), r@), r@.len() >= 1, r@.len() == old(self).store_of(i as int).len(), lists_k(old(self).sh(), i as int, old(self).store_of(i as int), r@),
    lsum(old(self).sh(), r@, r@.len() as int) == wof(old(self).sh(), i as int, old(self).store_of(i as int)),
    final(self).edge_bits@ == old(self).edge_bits@, final(self).edge_bits.gen == old(self).edge_bits.gen,
    *final(self) == (nwgraph { edge_bits: final(self).edge_bits, ..*old(self) }),
@at begin
    proof { lemma_pick_clique(*self, i as int); }

@fn nwgraph::get_max_clique_0()
@requires
    old(self).lay(), old(self).stored(), 1 <= old(self).CUR_MAX_CLIQUE_LOCATION < old(self).n_vert,
@ensures
    clq_list(old(self).sh(), r@), r@.len() >= 1, r@.len() == old(self).store_of(old(self).CUR_MAX_CLIQUE_LOCATION as int).len(),
    lists_k(old(self).sh(), old(self).CUR_MAX_CLIQUE_LOCATION as int, old(self).store_of(old(self).CUR_MAX_CLIQUE_LOCATION as int), r@),
    lsum(old(self).sh(), r@, r@.len() as int) == wof(old(self).sh(), old(self).CUR_MAX_CLIQUE_LOCATION as int, old(self).store_of(old(self).CUR_MAX_CLIQUE_LOCATION as int)),
    final(self).edge_bits@ == old(self).edge_bits@, final(self).edge_bits.gen == old(self).edge_bits.gen,
    *final(self) == (nwgraph { edge_bits: final(self).edge_bits, ..*old(self) }),

@lib
proof fn lemma_run(g: nwgraph, u: int, x: u64)
    requires g.sh().ok(), 0 <= u < g.vertices@.len(),
    ensures ({
        let v = g.vertices@[u];
        &&& 1 <= v.N && v.elo + v.N <= g.edge_list@.len()
        &&& strictly_sorted(g.edge_list@, v.elo as int, v.N as int)
        &&& in_run(g.edge_list@, v.elo as int, v.N as int, x) == g.sh().adj(u, x as int)
    }),
{
    let s = g.sh();
    let v = g.vertices@[u];
    assert(s.vok(u));
    assert(s.v[u] == vsh(v));
    assert forall|i: int, j: int| v.elo <= i < j < v.elo + v.N implies #[trigger] g.edge_list@[i] < #[trigger] g.edge_list@[j] by {
        assert(s.nb(u, i - v.elo) < s.nb(u, j - v.elo));
    }
    if in_run(g.edge_list@, v.elo as int, v.N as int, x) {
        let i = choose|i: int| v.elo <= i < v.elo + v.N && #[trigger] g.edge_list@[i] == x;
        assert(s.nb(u, i - v.elo) == x);
    }
    if s.adj(u, x as int) {
        let k = choose|k: int| 0 <= k < s.v[u].N && #[trigger] s.nb(u, k) == x;
        assert(g.edge_list@[v.elo + k] == x);
    }
}
pub open spec fn from_list(s: Sh, u: int, m: Seq<u64>, off: int, k: int, x: u64) -> bool {
    exists|j: int| 0 <= j < k && bat(m, off, j) && #[trigger] s.nb(u, j) == x
}
// the elements picked by a bitset over u's list come from u's list, in increasing order
proof fn lemma_pick_sub(s: Sh, u: int, m: Seq<u64>, off: int, k: int)
    requires s.vok(u), 0 <= k <= s.v[u].N,
    ensures
        forall|i: int| 0 <= i < pick(m, off, s.el, s.v[u].elo, k).len() ==>
            from_list(s, u, m, off, k, #[trigger] pick(m, off, s.el, s.v[u].elo, k)[i]),
        forall|i: int, j: int| 0 <= i < j < pick(m, off, s.el, s.v[u].elo, k).len() ==>
            #[trigger] pick(m, off, s.el, s.v[u].elo, k)[i] < #[trigger] pick(m, off, s.el, s.v[u].elo, k)[j],
    decreases k,
{
    if k > 0 {
        lemma_pick_sub(s, u, m, off, k - 1);
        let p = pick(m, off, s.el, s.v[u].elo, k - 1);
        let q = pick(m, off, s.el, s.v[u].elo, k);
        assert forall|i: int| 0 <= i < q.len() implies from_list(s, u, m, off, k, #[trigger] q[i]) by {
            if i < p.len() {
                assert(from_list(s, u, m, off, k - 1, p[i]));
                let j = choose|j: int| 0 <= j < k - 1 && bat(m, off, j) && #[trigger] s.nb(u, j) == p[i];
                assert(s.nb(u, j) == q[i]);
            } else {
                assert(s.nb(u, k - 1) == q[i]);
            }
        }
        assert forall|i: int, j: int| 0 <= i < j < q.len() implies #[trigger] q[i] < #[trigger] q[j] by {
            if j < p.len() {
                assert(p[i] < p[j]);
            } else {
                assert(from_list(s, u, m, off, k - 1, p[i]));
                let a = choose|a: int| 0 <= a < k - 1 && bat(m, off, a) && #[trigger] s.nb(u, a) == p[i];
                assert(s.nb(u, a) < s.nb(u, k - 1));
            }
        }
    }
}
proof fn lemma_lsum_same(s: Sh, a: Seq<u64>, b: Seq<u64>, k: int)
    requires 0 <= k <= a.len(), k <= b.len(), forall|i: int| 0 <= i < k ==> #[trigger] a[i] == b[i],
    ensures lsum(s, a, k) == lsum(s, b, k),
    decreases k,
{ if k > 0 { lemma_lsum_same(s, a, b, k - 1); assert(a[k - 1] == b[k - 1]); } }
proof fn lemma_pick_sum(s: Sh, u: int, m: Seq<u64>, off: int, q: Set<int>, k: int)
    requires 0 <= k, forall|i: int| 0 <= i < k ==> #[trigger] q.contains(i) == bat(m, off, i),
    ensures ({ let c = pick(m, off, s.el, s.v[u].elo, k); lsum(s, c, c.len() as int) == wsum(s, u, q, k) }),
    decreases k,
{
    if k > 0 {
        lemma_pick_sum(s, u, m, off, q, k - 1);
        let p = pick(m, off, s.el, s.v[u].elo, k - 1);
        let c = pick(m, off, s.el, s.v[u].elo, k);
        assert(q.contains(k - 1) == bat(m, off, k - 1));
        if c.len() > p.len() { lemma_lsum_same(s, p, c, p.len() as int); }
    }
}
proof fn lemma_pick_clique(g: nwgraph, u: int)
    requires g.lay(), g.stored(), 1 <= u < g.n_vert,
    ensures ({
        let v = g.vertices@[u];
        let c = pick(g.edge_bits@, v.bits.lo(), g.edge_list@, v.elo as int, v.N as int);
        &&& clq_list(g.sh(), c) && lists_k(g.sh(), u, g.store_of(u), c) && lsum(g.sh(), c, c.len() as int) == wof(g.sh(), u, g.store_of(u))
        &&& v.bits.wfp(g.edge_bits) && v.bits.clean(g.edge_bits) && g.vsto(u) && v.bits.valid_len == v.N
        &&& v.elo + v.N <= g.edge_list@.len()
    }),
{
    let s = g.sh();
    let v = g.vertices@[u];
    let m = g.edge_bits@;
    let off = v.bits.lo();
    let c = pick(m, off, g.edge_list@, v.elo as int, v.N as int);
    let q = v.bits.set_in(g.edge_bits);
    assert(s.vok(u) && g.vlay(u) && g.vsto(u) && s.v[u] == vsh(v));
    lemma_pick_sub(s, u, m, off, v.N as int);
    assert forall|k: int| 0 <= k < v.N implies #[trigger] q.contains(k) == bat(m, off, k) by {}
    lemma_pick_sum(s, u, m, off, q, v.N as int);
    assert forall|i: int| 0 <= i < c.len() implies 1 <= #[trigger] c[i] < s.n() by {
        assert(from_list(s, u, m, off, v.N as int, c[i]));
        let j = choose|j: int| 0 <= j < v.N && bat(m, off, j) && #[trigger] s.nb(u, j) == c[i];
        assert(s.adj(u, s.nb(u, j)));
        lemma_zero(s, u);
    }
    assert forall|i: int| 0 <= i < c.len() implies onlist(s, u, q, #[trigger] c[i] as int) by {
        assert(from_list(s, u, m, off, v.N as int, c[i]));
        let j = choose|j: int| 0 <= j < v.N && bat(m, off, j) && #[trigger] s.nb(u, j) == c[i];
        assert(q.contains(j));
    }
    assert forall|i: int, j: int| 0 <= i < j < c.len() implies #[trigger] c[i] < #[trigger] c[j] && s.adj(c[i] as int, c[j] as int) by {
        assert(from_list(s, u, m, off, v.N as int, c[i]));
        let a = choose|a: int| 0 <= a < v.N && bat(m, off, a) && #[trigger] s.nb(u, a) == c[i];
        assert(from_list(s, u, m, off, v.N as int, c[j]));
        let b = choose|b: int| 0 <= b < v.N && bat(m, off, b) && #[trigger] s.nb(u, b) == c[j];
        assert(q.contains(a) && q.contains(b));
    }
}

@lib
// same vertices except for the search bounds
pub open spec fn same_vs(a: Seq<wvertex>, b: Seq<wvertex>) -> bool {
    &&& a.len() == b.len()
    &&& forall|u: int| 0 <= u < a.len() ==> (wvertex { mcs: a[u].mcs, ..#[trigger] b[u] }) == a[u]
}
// the same graph with vertices ordered by (number of neighbours, label)
pub open spec fn bynum(s: Sh) -> Sh { Sh { el: s.el, v: Seq::new(s.v.len(), |u: int| VS { key: s.v[u].N as real, ..s.v[u] }) } }
proof fn lemma_bynum(s: Sh)
    requires s.ok(),
    ensures bynum(s).ok(), bynum(s).n() == s.n(), forall|x: int, y: int| #[trigger] bynum(s).adj(x, y) == s.adj(x, y),
        forall|u: int, k: int| 0 <= u < s.n() ==> #[trigger] bynum(s).nb(u, k) == s.nb(u, k),
{
    let t = bynum(s);
    assert forall|u: int, k: int| 0 <= u < s.n() implies #[trigger] t.nb(u, k) == s.nb(u, k) by { assert(t.v[u].elo == s.v[u].elo); }
    assert forall|x: int, y: int| #[trigger] t.adj(x, y) == s.adj(x, y) by {
        if s.adj(x, y) { let k = choose|k: int| 0 <= k < s.v[x].N && #[trigger] s.nb(x, k) == y; assert(t.nb(x, k) == y); }
        if t.adj(x, y) { let k = choose|k: int| 0 <= k < t.v[x].N && #[trigger] t.nb(x, k) == y; assert(s.nb(x, k) == y); }
    }
    assert forall|u: int| 0 <= u < t.n() implies #[trigger] t.vok(u) by {
        assert(s.vok(u));
        assert(t.nb(u, t.v[u].spos) == s.nb(u, s.v[u].spos));
        assert forall|k: int| 0 <= k < t.v[u].N implies 0 <= #[trigger] t.nb(u, k) < t.n() by { assert(t.nb(u, k) == s.nb(u, k)); }
        assert forall|i: int, j: int| 0 <= i < j < t.v[u].N implies #[trigger] t.nb(u, i) < #[trigger] t.nb(u, j) by { assert(s.nb(u, i) < s.nb(u, j)); }
    }
    assert forall|u: int, w: int| #[trigger] t.adj(u, w) implies t.adj(w, u) by { assert(s.adj(u, w)); assert(s.adj(w, u)); }
}
// the vertices that indices into u's list stand for
pub open spec fn vimg(s: Sh, u: int, q: Set<int>) -> Set<int> { Set::range(0, s.n()).filter(|w: int| named(s, u, q, w)) }
// no clique is larger than the largest number of vertices counted
proof fn lemma_depth(s: Sh, u: int, q: Set<int>, md: int)
    requires s.ok(), 1 <= u < s.n(), s.rclq(u, q), forall|w: int| 1 <= w < s.n() ==> #[trigger] bynum(s).rcount(w, s.v[w].N) <= md,
    ensures q.len() <= md,
{
    lemma_bynum(s);
    let t = bynum(s);
    let vs = vimg(s, u, q);
    assert(s.vok(u));
    lemma_zero(s, u);
    assert forall|a: int, b: int| #[trigger] vs.contains(a) && #[trigger] vs.contains(b) implies t.adj(a, b) by {
        let i = choose|k: int| #[trigger] q.contains(k) && s.nb(u, k) == a; let j = choose|k: int| #[trigger] q.contains(k) && s.nb(u, k) == b;
        assert(s.adj(s.nb(u, i), s.nb(u, j)));
    }
    assert forall|a: int| #[trigger] vs.contains(a) implies 1 <= a < t.n() by { let i = choose|k: int| #[trigger] q.contains(k) && s.nb(u, k) == a; assert(s.nb(u, i) >= 1); }
    assert(kset(s, u, vs) =~= q) by {
        assert forall|k: int| #[trigger] q.contains(k) implies kset(s, u, vs).contains(k) by { assert(0 <= s.nb(u, k) < s.n()); assert(named(s, u, q, s.nb(u, k))); }
        assert forall|k: int| #[trigger] kset(s, u, vs).contains(k) implies q.contains(k) by {
            let i = choose|i: int| #[trigger] q.contains(i) && s.nb(u, i) == s.nb(u, k);
            if i < k { assert(s.nb(u, i) < s.nb(u, k)); } else if k < i { assert(s.nb(u, k) < s.nb(u, i)); }
        }
    }
    lemma_kset_len(s, u, vs);
    assert(q.len() <= vs.len());
    assert(t.clq(vs));
    assert(q.contains(s.v[u].spos));
    assert(q.len() > 0) by { if q.len() == 0 { assert(q =~= Set::empty()); } }
    lemma_owner(t, vs);
    let (w, k) = choose|w: int, k: Set<int>| 1 <= w < t.n() && #[trigger] t.rclq(w, k) && k.len() >= vs.len();
    assert(t.vok(w));
    lemma_rclq_bound(t, w, k);
    assert(t.v[w].N == s.v[w].N);
    assert(bynum(s).rcount(w, s.v[w].N) <= md);
}
// the weight of the vertices taking part in the search rooted at u
pub open spec fn rsum(s: Sh, u: int, k: int) -> real { wsum(s, u, s.rset(u, s.v[u].N), k) }
// one step of the counting loops of set_bounds
proof fn lemma_count_step(g: nwgraph, u: int, j: int)
    requires g.sh().ok(), 0 <= u < g.vertices@.len(), 0 <= j < g.vertices@[u].N,
    ensures ({
        let v = g.vertices@[u]; let t = bynum(g.sh());
        let w = g.edge_list@[v.elo + j];
        &&& v.elo + v.N <= g.edge_list@.len() < 0x1000_0000_0000 && w < g.vertices@.len()
        &&& j < v.spos ==> g.sh().rin(u, j) == (g.vertices@[w as int].degree@ > v.degree@)
        &&& j >= v.spos ==> g.sh().rin(u, j) == (g.vertices@[w as int].degree@ >= v.degree@)
        &&& j < v.spos ==> t.rin(u, j) == (g.vertices@[w as int].N > v.N)
        &&& j >= v.spos ==> t.rin(u, j) == (g.vertices@[w as int].N >= v.N)
        &&& t.rcount(u, j + 1) == t.rcount(u, j) + (if t.rin(u, j) { 1int } else { 0int })
        &&& 0 <= t.rcount(u, j) <= j
        &&& rsum(g.sh(), u, j + 1) == rsum(g.sh(), u, j) + (if g.sh().rin(u, j) { g.vertices@[w as int].weight@ } else { 0real })
        &&& wt(g.sh(), u, j) == g.vertices@[w as int].weight@
    }),
{
    let s = g.sh();
    lemma_bynum(s);
    let t = bynum(s);
    assert(s.vok(u) && s.v[u] == vsh(g.vertices@[u]));
    assert(t.vok(u));
    assert(0 <= s.nb(u, j) < s.n());
    lemma_side(s, u, j);
    lemma_rcount(t, u, j);
    assert(t.nb(u, j) == s.nb(u, j));
    assert(s.v[s.nb(u, j)] == vsh(g.vertices@[s.nb(u, j)]));
    assert(t.v[s.nb(u, j)].key == g.vertices@[s.nb(u, j)].N as real);
    assert(s.rset(u, s.v[u].N).contains(j) == s.rin(u, j));
}
// moving the blocks to a larger region changes nothing they hold
proof fn lemma_moved(a: nwgraph, b: nwgraph, u: int)
    requires a.lay(), a.sh() == b.sh(), 0 <= u < a.n_vert, a.vsto(u),
        b.vertices@[u].bits.data.off == a.vertices@[u].ebo, b.vertices@[u].bits.valid_len == a.vertices@[u].N,
        forall|k: int| 0 <= k < a.eb_size ==> #[trigger] b.edge_bits@[k] == a.edge_bits@[k],
        a.vertices@.len() == b.vertices@.len(),
    ensures b.vsto(u), b.store_of(u) == a.store_of(u),
{
    assert(a.vlay(u));
    let x = a.vertices@[u].bits; let y = b.vertices@[u].bits;
    assert forall|i: int| 0 <= i < 64 * blen(x.n()) implies #[trigger] bat(b.edge_bits@, y.lo(), i) == bat(a.edge_bits@, x.lo(), i) by {
        assert(0 <= x.lo() + i / 64 < a.eb_size);
        assert(b.edge_bits@[x.lo() + i / 64] == a.edge_bits@[x.lo() + i / 64]);
    }
    assert(x.n() <= 64 * blen(x.n()));
    assert(y.set_in(b.edge_bits) =~= x.set_in(a.edge_bits));
    assert(y.clean(b.edge_bits)) by {
        assert forall|i: int| y.valid_len <= i < 64 * blen(y.valid_len as int) implies !#[trigger] bat(b.edge_bits@, y.data.off as int, i) by {
            assert(bat(b.edge_bits@, y.lo(), i) == bat(a.edge_bits@, x.lo(), i));
        }
    }
}
proof fn lemma_blen64(n: u64)
    requires n < 0x1_0000_0000_0000,
    ensures (if n % 64 != 0 { 1int } else { 0int }) + n / 64 == blen(n as int), blen(n as int) <= n, n >= 1 ==> blen(n as int) >= 1,
{}

@fn nwgraph::set_bounds()
@locals u64 cur, u64 j, u64 vert, u64 depth, u64 size, f64 mcs
@requires
    old(self).lay(), old(self).stored(), old(self).zeros(), old(self).degok(),
@ensures
    final(self).lay(), old(self).search_cur == old(self).search_start ==> final(self).room(),
    final(self).stored(), final(self).zeros(), final(self).mcsok(), final(self).locok(), final(self).degok(),
    final(self).sh() == old(self).sh(), final(self).search_cur == old(self).search_cur, final(self).search_start == old(self).search_start,
    final(self).CUR_MAX_CLIQUE_SIZE == old(self).CUR_MAX_CLIQUE_SIZE, final(self).n_vert == old(self).n_vert,
    forall|u: int| 0 <= u < old(self).n_vert ==> #[trigger] final(self).store_of(u) == old(self).store_of(u),
@loop 1
@invariant
    1 <= cur <= size, size == self.vertices@.len(),
    old(self).lay(), same_vs(old(self).vertices@, self.vertices@), self.vertices@[0] == old(self).vertices@[0],
    *self == (nwgraph { vertices: self.vertices, CLIQUE_LIMIT: self.CLIQUE_LIMIT, CUR_MAX_CLIQUE_LOCATION: self.CUR_MAX_CLIQUE_LOCATION, max_depth: self.max_depth, ..*old(self) }),
    self.sh() == old(self).sh(), self.max_depth <= self.n_vert,
    forall|u: int| 1 <= u < cur ==> (#[trigger] self.vertices@[u]).mcs@ == rsum(self.sh(), u, self.sh().v[u].N),
    forall|u: int| 1 <= u < cur ==> #[trigger] bynum(self.sh()).rcount(u, self.sh().v[u].N) <= self.max_depth,
    cur > 1 ==> 1 <= self.CUR_MAX_CLIQUE_LOCATION < cur,
@loop_decreases
    size - cur
@loop 2
@invariant
    1 <= cur < size, size == self.vertices@.len(), self.sh().ok(), j <= self.vertices@[cur as int].spos < self.vertices@[cur as int].N,
    mcs@ == rsum(self.sh(), cur as int, j as int), depth == bynum(self.sh()).rcount(cur as int, j as int), depth <= j,
@loop_decreases
    self.vertices@[cur as int].spos - j
@loop 3
@invariant
    1 <= cur < size, size == self.vertices@.len(), self.sh().ok(), self.vertices@[cur as int].spos <= j <= self.vertices@[cur as int].N,
    mcs@ == rsum(self.sh(), cur as int, j as int), depth == bynum(self.sh()).rcount(cur as int, j as int), depth <= j,
@loop_decreases
    self.vertices@[cur as int].N - j
@loop 4
@invariant
    cur <= size, size == self.vertices@.len(), g1.lay(), g1.sh() == old(self).sh(),
    *self == (nwgraph { vertices: self.vertices, edge_bits: self.edge_bits, search_end: self.search_end, ..g1 }),
    self.edge_bits@.len() >= g1.eb_size, self.edge_bits@.len() < 0x1000_0000_0000, self.edge_bits@ == eb1,
    self.vertices@.len() == g1.vertices@.len(),
    forall|u: int| 0 <= u < size ==> (wvertex { bits: g1.vertices@[u].bits, ..#[trigger] self.vertices@[u] }) == g1.vertices@[u],
    forall|u: int| 0 <= u < cur ==> (#[trigger] self.vertices@[u]).bits.data.off == g1.vertices@[u].ebo && self.vertices@[u].bits.valid_len == g1.vertices@[u].N
        && self.vertices@[u].bits.wfp(self.edge_bits),
@loop_decreases
    size - cur
@at begin
    let ghost mut g1 = *self;
    let ghost mut eb1 = self.edge_bits@;
@at loop 1 begin
    proof { assert(self.sh().vok(cur as int)); assert(self.sh().v[cur as int] == vsh(self.vertices@[cur as int])); }
    let ghost s0 = self.sh(); let ghost ga = *self;
@at loop 2 begin
    proof { lemma_count_step(*self, cur as int, j as int); }
@at loop 3 begin
    proof { lemma_count_step(*self, cur as int, j as int); }
@at loop 3 after
    proof {
        assert(old(self).vlay(cur as int));
        assert((wvertex { mcs: old(self).vertices@[cur as int].mcs, ..self.vertices@[cur as int] }) == old(self).vertices@[cur as int]);
    }
@at loop 1 body_end
    proof { lemma_sh_eq(ga, *self); }
@at loop 1 after
    proof {
        g1 = *self;
        lemma_bounds_done(*old(self), g1);
        lemma_blen64(self.max_neighbors);
        lemma_space(self.max_depth as int, blen(self.max_neighbors as int));
    }
@at loop 4 before
    proof { eb1 = self.edge_bits@; }
@at loop 4 begin
    proof { assert(g1.vlay(cur as int)); assert(g1.sh().vok(cur as int)); assert(g1.sh().v[cur as int] == vsh(g1.vertices@[cur as int])); lemma_blen64(g1.vertices@[cur as int].N); }
@at end
    proof {
        if *self == g1 {
            assert forall|u: int| 0 <= u < g1.n_vert implies (#[trigger] self.vertices@[u]).bits.data.off == g1.vertices@[u].ebo
                && self.vertices@[u].bits.valid_len == g1.vertices@[u].N && self.vertices@[u].bits.wfp(self.edge_bits) by {
                assert(g1.vlay(u)); assert(g1.sh().vok(u)); assert(g1.sh().v[u] == vsh(g1.vertices@[u]));
            }
        }
        lemma_bounds_end(*old(self), g1, *self, max_space as int);
    }

@lib
proof fn lemma_space(lim: int, b: int)
    requires 0 <= lim <= 0x1_0000_0000, 0 <= b <= 0x1_0000_0000,
    ensures 0 <= 2 * (lim + 1) * b < 0x4_0000_0000_0000_0000,
        b <= 0x400_0001 ==> 2 * (lim + 1) * b < 0x1000_0000_0000_0000,
{
    assert(0 <= 2 * (lim + 1) * b <= 2 * 0x1_0000_0001 * 0x1_0000_0000) by(nonlinear_arith) requires 0 <= lim <= 0x1_0000_0000, 0 <= b <= 0x1_0000_0000;
    if b <= 0x400_0001 {
        assert(2 * (lim + 1) * b <= 2 * 0x1_0000_0001 * 0x400_0001) by(nonlinear_arith) requires 0 <= lim <= 0x1_0000_0000, 0 <= b <= 0x400_0001;
    }
}
// after the counting loops: bounds are right, everything else is as before
proof fn lemma_bounds_done(a: nwgraph, b: nwgraph)
    requires a.lay(), a.stored(), a.zeros(), a.degok(), same_vs(a.vertices@, b.vertices@), b.vertices@[0] == a.vertices@[0],
        b == (nwgraph { vertices: b.vertices, CLIQUE_LIMIT: b.CLIQUE_LIMIT, CUR_MAX_CLIQUE_LOCATION: b.CUR_MAX_CLIQUE_LOCATION, max_depth: b.max_depth, ..a }),
        a.sh() == b.sh(),
        forall|u: int| 1 <= u < b.n_vert ==> (#[trigger] b.vertices@[u]).mcs@ == rsum(b.sh(), u, b.sh().v[u].N),
    ensures b.lay(), b.stored(), b.zeros(), b.mcsok(), b.degok(),
        forall|u: int| 0 <= u < a.n_vert ==> #[trigger] b.store_of(u) == a.store_of(u),
{
    let s = b.sh();
    assert forall|u: int| 0 <= u < b.n_vert implies (wvertex { mcs: a.vertices@[u].mcs, ..#[trigger] b.vertices@[u] }) == a.vertices@[u] by {}
    assert forall|u: int| 0 <= u < b.n_vert implies #[trigger] b.vlay(u) by { assert(a.vlay(u)); }
    assert forall|u: int| 0 <= u < b.n_vert implies #[trigger] b.vsto(u) by { assert(a.vsto(u)); }
    assert forall|u: int| 0 <= u < b.n_vert implies #[trigger] b.vdeg(u) by { assert(a.vdeg(u)); }
    assert forall|u: int| 1 <= u < b.n_vert implies #[trigger] b.vmcs(u) by {
        assert(s.vok(u) && s.v[u] == vsh(b.vertices@[u]));
        if wpos(s) {
            assert forall|q: Set<int>| #[trigger] s.rclq(u, q) implies wof(s, u, q) <= b.vertices@[u].mcs@ by {
                lemma_w_sub(s, u, q, s.rset(u, s.v[u].N), s.v[u].N);
            }
        }
    }
}
proof fn lemma_bounds_end(a: nwgraph, g1: nwgraph, b: nwgraph, space: int)
    requires a.lay(), g1.lay(), g1.stored(), g1.zeros(), g1.mcsok(), g1.degok(), a.sh() == g1.sh(), a.n_vert == g1.n_vert,
        space == 2 * (g1.max_depth + 1) * blen(g1.max_neighbors as int),
        b == (nwgraph { vertices: b.vertices, edge_bits: b.edge_bits, search_end: b.search_end, ..g1 }),
        b.edge_bits@.len() < 0x1000_0000_0000, b.search_end == b.edge_bits@.len(),
        b.search_start + space <= b.edge_bits@.len(),
        b.edge_bits@.len() >= g1.edge_bits@.len(), space >= 0,
        forall|k: int| 0 <= k < b.edge_bits@.len() ==> #[trigger] b.edge_bits@[k] == (if k < g1.edge_bits@.len() { g1.edge_bits@[k] } else { 0u64 }),
        b.vertices@.len() == g1.vertices@.len(),
        forall|u: int| 0 <= u < g1.n_vert ==> (wvertex { bits: g1.vertices@[u].bits, ..#[trigger] b.vertices@[u] }) == g1.vertices@[u],
        forall|u: int| 0 <= u < g1.n_vert ==> (#[trigger] b.vertices@[u]).bits.data.off == g1.vertices@[u].ebo && b.vertices@[u].bits.valid_len == g1.vertices@[u].N
            && b.vertices@[u].bits.wfp(b.edge_bits),
        forall|u: int| 1 <= u < g1.n_vert ==> #[trigger] bynum(g1.sh()).rcount(u, g1.sh().v[u].N) <= g1.max_depth,
    ensures b.lay(), b.search_cur == b.search_start ==> b.room(), b.stored(), b.zeros(), b.mcsok(), b.degok(), b.sh() == a.sh(),
        forall|u: int| 0 <= u < a.n_vert ==> #[trigger] b.store_of(u) == g1.store_of(u),
{
    assert forall|u: int| 0 <= u < g1.vertices@.len() implies vsh(#[trigger] g1.vertices@[u]) == vsh(b.vertices@[u]) by {
        assert((wvertex { bits: g1.vertices@[u].bits, ..b.vertices@[u] }) == g1.vertices@[u]);
    }
    lemma_sh_eq(g1, b);
    assert forall|u: int| 0 <= u < b.n_vert implies #[trigger] b.vlay(u) by { assert(g1.vlay(u)); assert(b.vertices@[u].bits.wfp(b.edge_bits)); }
    assert forall|u: int, w: int| 0 <= u < w < b.n_vert implies
            #[trigger] b.vertices@[u].ebo + blen(b.vertices@[u].N as int) <= #[trigger] b.vertices@[w].ebo by {
        assert(g1.vertices@[u].ebo + blen(g1.vertices@[u].N as int) <= g1.vertices@[w].ebo);
    }
    assert forall|u: int| 0 <= u < b.n_vert implies #[trigger] b.vsto(u) && b.store_of(u) == g1.store_of(u) by {
        assert(g1.vsto(u)); assert(b.vertices@[u].bits.wfp(b.edge_bits));
        lemma_moved(g1, b, u);
    }
    assert forall|u: int| 0 <= u < b.n_vert implies #[trigger] b.store_of(u) == g1.store_of(u) by { assert(b.vsto(u)); }
    assert forall|u: int| 1 <= u < b.n_vert implies #[trigger] b.vmcs(u) by { assert(g1.vmcs(u)); }
    assert forall|u: int| 0 <= u < b.n_vert implies #[trigger] b.vdeg(u) by { assert(g1.vdeg(u)); }
    assert forall|u: int, q: Set<int>| 1 <= u < b.n_vert && #[trigger] b.sh().rclq(u, q) implies q.len() <= b.max_depth by {
        lemma_depth(b.sh(), u, q, b.max_depth as int);
    }
    lemma_blen64(g1.max_neighbors);
}

@lib
// positions elo .. elo+N are exactly those of u
pub open spec fn run_of(f: Seq<u64>, u: int, elo: int, n: int) -> bool {
    0 <= elo && elo + n <= f.len() && forall|k: int| 0 <= k < f.len() ==> (#[trigger] f[k] == u) == (elo <= k < elo + n)
}
// the weight of the first k entries of s from elo
pub open spec fn dsum(wts: Seq<Dbl>, s: Seq<u64>, elo: int, k: int) -> real
    decreases k,
{ if k <= 0 { 0real } else { dsum(wts, s, elo, k - 1) + wts[s[elo + k - 1] as int]@ } }
pub open spec fn built(g: nwgraph, f: Seq<u64>, wts: Seq<Dbl>, u: int) -> bool {
    let v = g.vertices@[u];
    &&& 1 <= v.N && v.spos < v.N && v.N <= g.max_neighbors && run_of(f, u, v.elo as int, v.N as int) && g.edge_list@[v.elo + v.spos] == u
    &&& v.ebo + blen(v.N as int) <= g.eb_size
    &&& v.weight@ == wts[u]@ && v.degree@ == dsum(wts, g.edge_list@, v.elo as int, v.N as int) && v.degree@ <= g.max_degree@
    &&& v.bits.data.off == v.ebo && v.bits.valid_len == v.N && v.bits.data.gen@ == g.edge_bits.gen@ && v.bits.pad_cover == pad_of(v.N as int)
    &&& forall|k: int| 0 <= k < 64 * blen(v.N as int) ==> #[trigger] bat(g.edge_bits@, v.ebo as int, k) == (k == v.spos)
}
pub open spec fn building(g: nwgraph, f: Seq<u64>, s: Seq<u64>, wts: Seq<Dbl>, n: int, i: int, p: Ptr) -> bool {
    &&& 0 <= i <= n + 1 && n + 1 < 0x1_0000_0000 && g.n_vert == n + 1 && g.vertices@.len() == n + 1 && g.edge_list@ == s && wts.len() == n + 1
    &&& f.len() == s.len() && f.len() < 0x1000_0000_0000 && g.edge_bits@.len() == f.len() && p.gen@ == g.edge_bits.gen@ && p.off == 0
    &&& edges_ok(f, s, n) && ssorted2(f, s, 0, f.len() as int)
    &&& g.eb_size <= g.el_size <= f.len() && g.max_neighbors <= n + 1
    &&& forall|k: int| g.el_size <= k < f.len() ==> #[trigger] f[k] >= i
    &&& forall|k: int| 0 <= k < g.el_size ==> #[trigger] f[k] < i
    &&& forall|k: int| 0 <= k < f.len() && k >= g.eb_size ==> #[trigger] g.edge_bits@[k] == (if k < g.el_size { 0u64 } else { f[k] })
    &&& forall|u: int| 0 <= u < i ==> #[trigger] built(g, f, wts, u)
    &&& forall|u: int, w: int| 0 <= u < w < i ==>
            #[trigger] g.vertices@[u].ebo + blen(g.vertices@[u].N as int) <= #[trigger] g.vertices@[w].ebo
}
proof fn lemma_same_edges(a: Seq<u64>, b: Seq<u64>, f: Seq<u64>, s: Seq<u64>, n: int)
    requires edges_ok(a, b, n), 0 <= n < u64::MAX, f.len() == s.len(), f.len() <= a.len(),
        same_set2(a, b, 0, a.len() as int, f, s, 0, f.len() as int),
    ensures edges_ok(f, s, n), forall|x: int, y: int| #[trigger] hasp(f, s, x, y) == hasp(a, b, x, y),
{
    assert forall|x: int, y: int| #[trigger] hasp(f, s, x, y) == hasp(a, b, x, y) by {
        if 0 <= x <= u64::MAX && 0 <= y <= u64::MAX {
            assert(in2(a, b, 0, a.len() as int, x as u64, y as u64) == in2(f, s, 0, f.len() as int, x as u64, y as u64));
        }
    }
    assert forall|x: int| 0 <= x <= n implies #[trigger] hasp(f, s, x, x) by { assert(hasp(a, b, x, x)); }
    assert forall|i: int| 0 <= i < f.len() implies #[trigger] f[i] <= n && s[i] <= n by {
        assert(in2(f, s, 0, f.len() as int, f[i], s[i]));
        assert(in2(a, b, 0, a.len() as int, f[i], s[i]));
        let k = choose|k: int| 0 <= k < a.len() && #[trigger] a[k] == f[i] && b[k] == s[i];
        assert(a[k] <= n);
    }
}
proof fn lemma_built_adj(g: nwgraph, f: Seq<u64>, s: Seq<u64>, wts: Seq<Dbl>, n: int, u: int, w: int, p: Ptr)
    requires building(g, f, s, wts, n, n + 1, p), 0 <= u <= n,
    ensures g.sh().adj(u, w) == hasp(f, s, u, w), g.sh().v[u] == vsh(g.vertices@[u]),
{
    let h = g.sh();
    let v = g.vertices@[u];
    assert(built(g, f, wts, u));
    assert(h.v[u] == vsh(v));
    if h.adj(u, w) {
        let k = choose|k: int| 0 <= k < h.v[u].N && #[trigger] h.nb(u, k) == w;
        assert(f[v.elo + k] == u && s[v.elo + k] == w);
        assert(in2(f, s, 0, f.len() as int, u as u64, w as u64));
    }
    if hasp(f, s, u, w) {
        let i = choose|i: int| 0 <= i < f.len() && #[trigger] f[i] == u as u64 && s[i] == w as u64;
        assert(f[i] == u);
        assert(h.nb(u, i - v.elo) == w);
    }
}
proof fn lemma_built_all(g: nwgraph, f: Seq<u64>, s: Seq<u64>, wts: Seq<Dbl>, n: int, p: Ptr)
    requires building(g, f, s, wts, n, n + 1, p), g.search_start == 1 + g.eb_size, g.search_cur == g.search_start, g.search_end == g.edge_bits@.len(), n >= 0,
    ensures g.lay(), g.stored(), g.zeros(), g.degok(),
        forall|u: int| 0 <= u <= n ==> (#[trigger] g.sh().v[u]).w == wts[u]@,
        forall|x: int, y: int| #[trigger] g.sh().adj(x, y) == hasp(f, s, x, y),
        forall|u: int| 0 <= u <= n ==> #[trigger] g.store_of(u) == set![g.sh().v[u].spos],
{
    let h = g.sh();
    assert forall|x: int, y: int| #[trigger] h.adj(x, y) == hasp(f, s, x, y) by {
        if 0 <= x <= n { lemma_built_adj(g, f, s, wts, n, x, y, p); }
        else if hasp(f, s, x, y) {
            let i = choose|i: int| 0 <= i < f.len() && #[trigger] f[i] == x as u64 && s[i] == y as u64;
            assert(f[i] <= n);
        }
    }
    assert forall|u: int| 0 <= u < h.n() implies #[trigger] h.vok(u) by {
        lemma_built_adj(g, f, s, wts, n, u, u, p);
        let v = g.vertices@[u];
        assert(built(g, f, wts, u));
        assert forall|k: int| 0 <= k < h.v[u].N implies 0 <= #[trigger] h.nb(u, k) < h.n() by { assert(f[v.elo + k] <= n); }
        assert forall|i: int, j: int| 0 <= i < j < h.v[u].N implies #[trigger] h.nb(u, i) < #[trigger] h.nb(u, j) by {
            assert(plt(f[v.elo + i], s[v.elo + i], f[v.elo + j], s[v.elo + j]));
            assert(f[v.elo + i] == u && f[v.elo + j] == u);
        }
    }
    assert(h.v[0].N == 1) by {
        assert(h.vok(0));
        lemma_built_adj(g, f, s, wts, n, 0, 0, p);
        if h.v[0].N > 1 {
            assert(h.nb(0, 0) < h.nb(0, 1));
            assert(h.adj(0, h.nb(0, 1)));
            lemma_built_adj(g, f, s, wts, n, 0, h.nb(0, 1), p);
        }
    }
    assert(h.ok());
    assert forall|u: int| 0 <= u < g.n_vert implies #[trigger] g.vlay(u) by { assert(built(g, f, wts, u)); }
    assert forall|u: int| 0 <= u < g.n_vert implies #[trigger] g.vsto(u) && g.store_of(u) == set![h.v[u].spos] by {
        assert(built(g, f, wts, u)); assert(h.vok(u)); assert(h.v[u] == vsh(g.vertices@[u]));
        let v = g.vertices@[u];
        assert(g.store_of(u) =~= set![h.v[u].spos]) by {
            assert forall|k: int| g.store_of(u).contains(k) == (k == v.spos) by {
                if 0 <= k < v.N { assert(bat(g.edge_bits@, v.ebo as int, k) == (k == v.spos)); }
            }
        }
        assert(h.adj(u, u)) by { assert(h.nb(u, h.v[u].spos) == u); }
    }
    assert forall|u: int| 0 <= u <= n implies #[trigger] g.store_of(u) == set![h.v[u].spos] by { assert(g.vsto(u)); }
    assert forall|u: int| 0 <= u <= n implies (#[trigger] h.v[u]).w == wts[u]@ by { assert(built(g, f, wts, u)); assert(h.v[u] == vsh(g.vertices@[u])); }
    assert forall|u: int| 0 <= u < g.n_vert implies #[trigger] g.vdeg(u) by {
        assert(built(g, f, wts, u)); assert(h.vok(u)); assert(h.v[u] == vsh(g.vertices@[u]));
        lemma_degsum(h, wts, u, Set::range(0, g.vertices@[u].N as int), h.v[u].N);
    }
}
proof fn lemma_degsum(h: Sh, wts: Seq<Dbl>, u: int, q: Set<int>, k: int)
    requires h.ok(), 0 <= u < h.n(), 0 <= k <= h.v[u].N, q == Set::range(0, h.v[u].N), forall|w: int| 0 <= w < h.n() ==> (#[trigger] h.v[w]).w == wts[w]@,
    ensures dsum(wts, h.el, h.v[u].elo, k) == wsum(h, u, q, k),
    decreases k,
{
    if k > 0 {
        lemma_degsum(h, wts, u, q, k - 1);
        assert(h.vok(u));
        assert(0 <= h.nb(u, k - 1) < h.n());
        assert(q.contains(k - 1));
        assert(h.v[h.nb(u, k - 1)].w == wts[h.nb(u, k - 1)]@);
    }
}
// vertex i has been entered after scanning its run
proof fn lemma_build_step(a: nwgraph, b: nwgraph, f: Seq<u64>, s: Seq<u64>, wts: Seq<Dbl>, n: int, i: int, j: int, p: Ptr, m: Seq<u64>)
    requires building(a, f, s, wts, n, i, p), i <= n, 1 <= j, run_of(f, i, a.el_size as int, j),
        b.n_vert == a.n_vert, b.edge_list@ == a.edge_list@, b.edge_bits.gen == a.edge_bits.gen,
        b.vertices@.len() == a.vertices@.len(), forall|u: int| 0 <= u < a.vertices@.len() && u != i ==> #[trigger] b.vertices@[u] == a.vertices@[u],
        b.el_size == a.el_size + j, b.eb_size == a.eb_size + blen(j), b.max_neighbors == (if j > a.max_neighbors { j } else { a.max_neighbors as int }), j <= n + 1,
        b.max_degree@ >= a.max_degree@, b.max_degree@ >= b.vertices@[i].degree@, b.vertices@[i].weight@ == wts[i]@, b.vertices@[i].degree@ == dsum(wts, s, a.el_size as int, j),
        same_outside(a.edge_bits@, m, a.el_size as int, a.el_size + j),
        forall|k: int| a.el_size <= k < a.el_size + j ==> #[trigger] m[k] == 0,
        same_outside(m, b.edge_bits@, a.eb_size as int, a.eb_size + blen(j)),
        ({ let v = b.vertices@[i]; &&& v.N == j && v.elo == a.el_size && v.ebo == a.eb_size && v.spos < j && s[v.elo + v.spos] == i
            &&& v.bits.data.off == v.ebo && v.bits.valid_len == v.N && v.bits.wfp(b.edge_bits)
            &&& forall|k: int| 0 <= k < 64 * blen(j) ==> #[trigger] bat(b.edge_bits@, v.ebo as int, k) == (bat(m, v.ebo as int, k) || k == v.spos) }),
    ensures building(b, f, s, wts, n, i + 1, p),
{
    broadcast use bit_lemmas;
    assert(blen(j) <= j);
    assert forall|k: int| b.el_size <= k < f.len() implies #[trigger] f[k] >= i + 1 by { assert(f[k] >= i); assert(f[k] != i); }
    assert forall|k: int| 0 <= k < b.el_size implies #[trigger] f[k] < i + 1 by { if k >= a.el_size { assert(f[k] == i); } }
    assert forall|k: int| 0 <= k < f.len() && k >= b.eb_size implies #[trigger] b.edge_bits@[k] == (if k < b.el_size { 0u64 } else { f[k] }) by {
        assert(b.edge_bits@[k] == m[k]);
        assert(a.edge_bits@[k] == (if k < a.el_size { 0u64 } else { f[k] }));
    }
    assert forall|k: int| a.eb_size <= k < a.eb_size + blen(j) implies #[trigger] m[k] == 0 by {
        if k < a.el_size { assert(m[k] == a.edge_bits@[k]); }
    }
    assert forall|u: int| 0 <= u < i + 1 implies #[trigger] built(b, f, wts, u) by {
        if u < i {
            assert(built(a, f, wts, u));
            let v = a.vertices@[u];
            assert(b.vertices@[u] == v);
            assert forall|k: int| 0 <= k < 64 * blen(v.N as int) implies #[trigger] bat(b.edge_bits@, v.ebo as int, k) == (k == v.spos) by {
                let w = v.ebo + k / 64;
                assert(w < a.eb_size);
                assert(b.edge_bits@[w] == m[w]);
                assert(m[w] == a.edge_bits@[w]);
                assert(bat(a.edge_bits@, v.ebo as int, k) == (k == v.spos));
            }
        } else {
            let v = b.vertices@[i];
            assert forall|k: int| 0 <= k < 64 * blen(v.N as int) implies #[trigger] bat(b.edge_bits@, v.ebo as int, k) == (k == v.spos) by {
                assert(m[v.ebo + k / 64] == 0);
                assert(!bat(m, v.ebo as int, k));
            }
        }
    }
    assert forall|u: int, w: int| 0 <= u < w < i + 1 implies
            #[trigger] b.vertices@[u].ebo + blen(b.vertices@[u].N as int) <= #[trigger] b.vertices@[w].ebo by {
        assert(built(a, f, wts, u));
        assert(b.vertices@[u] == a.vertices@[u]);
        if w < i { assert(a.vertices@[u].ebo + blen(a.vertices@[u].N as int) <= a.vertices@[w].ebo); }
    }
}

@fn nwgraph::new_u_u_pair_v(n_vert, n_edges, edges, weights)
@locals u64 i, u64 j, u64 spos, u64 el_size_max, f64 degree
@requires
    n_vert + 1 < 0x1_0000_0000, old(weights)@.len() == n_vert + 1, edges_ok(old(edges).first@, old(edges).second@, n_vert as int),
@ensures
    r.gwf(), r.n_vert == n_vert + 1, r.CUR_MAX_CLIQUE_SIZE@ == 0real, r.search_cur == r.search_start,
    forall|x: int, y: int| #[trigger] r.sh().adj(x, y) == hasp(old(edges).first@, old(edges).second@, x, y),
    forall|u: int| 0 <= u <= n_vert ==> (#[trigger] r.sh().v[u]).w == old(weights)@[u]@,
    forall|u: int| 0 <= u <= n_vert ==> #[trigger] r.store_of(u) == set![r.sh().v[u].spos],
@loop 1
@invariant
    building(this_, F, S, weights@, n_vert as int, i as int, eb_base), el_size_max == F.len(), this_.CUR_MAX_CLIQUE_SIZE@ == 0real,
@loop_decreases
    n_vert + 1 - i
@loop 2
@invariant
    building(g0, F, S, weights@, n_vert as int, i as int, eb_base), i <= n_vert, el_size_max == F.len(),
    this_ == (nwgraph { edge_bits: this_.edge_bits, ..g0 }), this_.edge_bits.gen == g0.edge_bits.gen,
    g0.el_size + j <= F.len(), same_outside(g0.edge_bits@, this_.edge_bits@, g0.el_size as int, g0.el_size + j),
    forall|k: int| g0.el_size <= k < g0.el_size + j ==> #[trigger] this_.edge_bits@[k] == 0,
    forall|k: int| g0.el_size <= k < g0.el_size + j ==> #[trigger] F[k] == i,
    forall|k: int| g0.el_size <= k < g0.el_size + j && #[trigger] S[k] == i ==> spos == k - g0.el_size,
    j > 0 ==> S[g0.el_size + j - 1] >= j - 1,
    spos == 0 || spos < j, degree@ == dsum(weights@, S, g0.el_size as int, j as int),
@loop_decreases
    F.len() - g0.el_size - j
@at after /clean_edges/
    let ghost F = edges.first@; let ghost S = edges.second@;
    proof { lemma_same_edges(old(edges).first@, old(edges).second@, F, S, n_vert as int); }
@at loop 1 begin
    let ghost g0 = this_;
@at loop 2 begin
    let ghost kk = g0.el_size + j;
    proof {
        assert(this_.edge_bits@[kk] == g0.edge_bits@[kk]);
        assert(F[kk] == i);
        if j > 0 { assert(plt(F[kk - 1], S[kk - 1], F[kk], S[kk])); assert(F[kk - 1] == i); }
        assert(S[kk] >= j);
        assert forall|k: int| g0.el_size <= k < kk implies #[trigger] S[k] < S[kk] by { assert(F[k] == i); assert(plt(F[k], S[k], F[kk], S[kk])); }
        assert(F[kk] <= n_vert && S[kk] <= n_vert);
    }
@at loop 2 after
    let ghost mm = this_.edge_bits@;
    proof {
        lemma_run_end(g0, this_, F, S, weights@, n_vert as int, i as int, j as int, eb_base);
        assert(F[g0.el_size + spos] == i);
        assert(j >= 1);
        assert(edges_ok(F, S, n_vert as int));
        assert(F[g0.el_size + j - 1] <= n_vert);
        lemma_blen64(j);
    }
@at loop 1 body_end
    proof { lemma_build_step(g0, this_, F, S, weights@, n_vert as int, i as int, j as int, eb_base, mm); }
@at before /search_start = /
    let ghost gl = this_;
@at before /set_bounds/
    proof { lemma_building_frame(gl, this_, F, S, weights@, n_vert as int, eb_base); lemma_built_all(this_, F, S, weights@, n_vert as int, eb_base); }

@lib
proof fn lemma_building_frame(a: nwgraph, b: nwgraph, f: Seq<u64>, s: Seq<u64>, wts: Seq<Dbl>, n: int, p: Ptr)
    requires building(a, f, s, wts, n, n + 1, p), b == (nwgraph { search_start: b.search_start, search_cur: b.search_cur, search_end: b.search_end, ..a }),
    ensures building(b, f, s, wts, n, n + 1, p),
{
    assert forall|u: int| 0 <= u < n + 1 implies #[trigger] built(b, f, wts, u) by { assert(built(a, f, wts, u)); }
    assert forall|u: int, w: int| 0 <= u < w < n + 1 implies
            #[trigger] b.vertices@[u].ebo + blen(b.vertices@[u].N as int) <= #[trigger] b.vertices@[w].ebo by {
        assert(a.vertices@[u].ebo + blen(a.vertices@[u].N as int) <= a.vertices@[w].ebo);
    }
}
proof fn lemma_run_end(g0: nwgraph, g: nwgraph, f: Seq<u64>, s: Seq<u64>, wts: Seq<Dbl>, n: int, i: int, j: int, p: Ptr)
    requires building(g0, f, s, wts, n, i, p), 0 <= i <= n, 0 <= j, g0.el_size + j <= f.len(),
        same_outside(g0.edge_bits@, g.edge_bits@, g0.el_size as int, g0.el_size + j),
        forall|k: int| g0.el_size <= k < g0.el_size + j ==> #[trigger] f[k] == i,
        g0.el_size + j < f.len() ==> g.edge_bits@[g0.el_size + j] != i,
    ensures run_of(f, i, g0.el_size as int, j), exists|k: int| g0.el_size <= k < g0.el_size + j && #[trigger] f[k] == i && s[k] == i,
{
    let e = g0.el_size + j;
    assert forall|k: int| 0 <= k < f.len() implies (#[trigger] f[k] == i) == (g0.el_size <= k < e) by {
        if k < g0.el_size { assert(f[k] < i); }
        if k >= e {
            assert(g.edge_bits@[e] == g0.edge_bits@[e]);
            assert(f[e] != i && f[e] >= i);
            if k > e { assert(plt(f[e], s[e], f[k], s[k])); }
        }
    }
    assert(hasp(f, s, i, i));
    let k = choose|k: int| 0 <= k < f.len() && #[trigger] f[k] == i as u64 && s[k] == i as u64;
    assert(f[k] == i);
}
