@lib
// Sums of vertex weights over sets of indices into u's list
pub open spec fn wt(s: Sh, u: int, k: int) -> real { s.v[s.nb(u, k)].w }
pub open spec fn wsum(s: Sh, u: int, q: Set<int>, n: int) -> real
    decreases n,
{ if n <= 0 { 0real } else { wsum(s, u, q, n - 1) + (if q.contains(n - 1) { wt(s, u, n - 1) } else { 0real }) } }
pub open spec fn wof(s: Sh, u: int, q: Set<int>) -> real { wsum(s, u, q, s.v[u].N) }
// all weights are positive
pub open spec fn wpos(s: Sh) -> bool { forall|u: int| 1 <= u < s.n() ==> (#[trigger] s.v[u]).w > 0real }
// the weight of a list of vertices
pub open spec fn lsum(s: Sh, c: Seq<u64>, k: int) -> real
    decreases k,
{ if k <= 0 { 0real } else { lsum(s, c, k - 1) + s.v[c[k - 1] as int].w } }

pub proof fn lemma_w_same(s: Sh, u: int, a: Set<int>, b: Set<int>, n: int)
    requires forall|k: int| 0 <= k < n ==> #[trigger] a.contains(k) == b.contains(k),
    ensures wsum(s, u, a, n) == wsum(s, u, b, n),
    decreases n,
{ if n > 0 { lemma_w_same(s, u, a, b, n - 1); assert(a.contains(n - 1) == b.contains(n - 1)); } }
pub proof fn lemma_w_insert(s: Sh, u: int, a: Set<int>, x: int, n: int)
    requires 0 <= x < n, !a.contains(x),
    ensures wsum(s, u, a.insert(x), n) == wsum(s, u, a, n) + wt(s, u, x),
    decreases n,
{
    if x == n - 1 { lemma_w_same(s, u, a.insert(x), a, n - 1); } else { lemma_w_insert(s, u, a, x, n - 1); }
}
pub proof fn lemma_w_remove(s: Sh, u: int, a: Set<int>, x: int, n: int)
    requires 0 <= x < n, a.contains(x),
    ensures wsum(s, u, a.remove(x), n) == wsum(s, u, a, n) - wt(s, u, x),
{
    lemma_w_insert(s, u, a.remove(x), x, n);
    assert(a.remove(x).insert(x) =~= a);
}
pub proof fn lemma_w_empty(s: Sh, u: int, a: Set<int>, n: int)
    requires forall|k: int| 0 <= k < n ==> !#[trigger] a.contains(k),
    ensures wsum(s, u, a, n) == 0real,
    decreases n,
{ if n > 0 { lemma_w_empty(s, u, a, n - 1); assert(!a.contains(n - 1)); } }
pub proof fn lemma_wt_pos(s: Sh, u: int, k: int)
    requires s.ok(), wpos(s), 1 <= u < s.n(), 0 <= k < s.v[u].N,
    ensures wt(s, u, k) > 0real,
{
    assert(s.vok(u));
    lemma_zero(s, u);
    assert(1 <= s.nb(u, k) < s.n());
    assert(s.v[s.nb(u, k)].w > 0real);
}
pub proof fn lemma_w_sub(s: Sh, u: int, a: Set<int>, b: Set<int>, n: int)
    requires s.ok(), wpos(s), 1 <= u < s.n(), n <= s.v[u].N, forall|k: int| 0 <= k < n && #[trigger] a.contains(k) ==> b.contains(k),
    ensures 0real <= wsum(s, u, a, n) <= wsum(s, u, b, n),
    decreases n,
{
    if n > 0 {
        lemma_w_sub(s, u, a, b, n - 1);
        lemma_wt_pos(s, u, n - 1);
        if a.contains(n - 1) { assert(b.contains(n - 1)); }
    }
}
// the sum over a union of sets without common members
pub proof fn lemma_w_union(s: Sh, u: int, a: Set<int>, b: Set<int>, c: Set<int>, n: int)
    requires forall|k: int| 0 <= k < n ==> #[trigger] c.contains(k) == (a.contains(k) || b.contains(k)), forall|k: int| 0 <= k < n && #[trigger] a.contains(k) ==> !b.contains(k),
    ensures wsum(s, u, c, n) == wsum(s, u, a, n) + wsum(s, u, b, n),
    decreases n,
{
    if n > 0 {
        lemma_w_union(s, u, a, b, c, n - 1);
        assert(c.contains(n - 1) == (a.contains(n - 1) || b.contains(n - 1)));
        if a.contains(n - 1) { assert(!b.contains(n - 1)); }
    }
}
// what lies behind the last member does not matter
pub proof fn lemma_w_cut(s: Sh, u: int, a: Set<int>, k: int, n: int)
    requires 0 <= k <= n, forall|x: int| k <= x < n ==> !#[trigger] a.contains(x),
    ensures wsum(s, u, a, n) == wsum(s, u, a, k),
    decreases n,
{ if n > k { lemma_w_cut(s, u, a, k, n - 1); assert(!a.contains(n - 1)); } }
