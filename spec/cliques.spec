@lib
// A graph as the sources store it: neighbour lists (each vertex is in its own list) at offsets into one array.
pub struct VS { pub N: int, pub spos: int, pub elo: int, pub ebo: int, pub key: real, pub w: real }
pub struct Sh { pub el: Seq<u64>, pub v: Seq<VS> }
impl Sh {
    pub open spec fn n(self) -> int { self.v.len() as int }
    pub open spec fn nb(self, u: int, k: int) -> int { self.el[self.v[u].elo + k] as int }
    pub open spec fn adj(self, u: int, w: int) -> bool {
        0 <= u < self.n() && exists|k: int| 0 <= k < self.v[u].N && #[trigger] self.nb(u, k) == w
    }
    pub open spec fn vok(self, u: int) -> bool {
        &&& 1 <= self.v[u].N && 0 <= self.v[u].spos < self.v[u].N && 0 <= self.v[u].elo
        &&& self.v[u].elo + self.v[u].N <= self.el.len()
        &&& self.nb(u, self.v[u].spos) == u
        &&& forall|k: int| 0 <= k < self.v[u].N ==> 0 <= #[trigger] self.nb(u, k) < self.n()
        &&& forall|i: int, j: int| 0 <= i < j < self.v[u].N ==> #[trigger] self.nb(u, i) < #[trigger] self.nb(u, j)
    }
    // vertex 0 is a sentinel without neighbours
    pub open spec fn ok(self) -> bool {
        &&& 1 <= self.n() <= 0x1_0000_0000 && self.el.len() < 0x1000_0000_0000
        &&& forall|u: int| 0 <= u < self.n() ==> #[trigger] self.vok(u)
        &&& forall|u: int, w: int| #[trigger] self.adj(u, w) ==> self.adj(w, u)
        &&& self.v[0].N == 1
    }
    // w comes later than u in the order by (key, label); the key of a plain graph is the number of neighbours, the weight 1
    pub open spec fn later(self, u: int, w: int) -> bool {
        self.v[w].key > self.v[u].key || (self.v[w].key == self.v[u].key && w > u)
    }
    // index j of u's list takes part in the search rooted at u
    pub open spec fn rin(self, u: int, j: int) -> bool {
        j == self.v[u].spos || self.later(u, self.nb(u, j))
    }
    pub open spec fn rcount(self, u: int, k: int) -> int
        decreases k,
    { if k <= 0 { 0 } else { self.rcount(u, k - 1) + (if self.rin(u, k - 1) { 1int } else { 0int }) } }
    pub open spec fn rset(self, u: int, k: int) -> Set<int> { Set::range(0, k).filter(|j: int| self.rin(u, j)) }
    // a set of indices into u's list that names pairwise adjacent vertices
    pub open spec fn iclq(self, u: int, q: Set<int>) -> bool {
        &&& forall|i: int| #[trigger] q.contains(i) ==> 0 <= i < self.v[u].N
        &&& forall|i: int, j: int| #[trigger] q.contains(i) && #[trigger] q.contains(j) ==> self.adj(self.nb(u, i), self.nb(u, j))
    }
    // a clique found by the search rooted at u
    pub open spec fn rclq(self, u: int, q: Set<int>) -> bool {
        self.iclq(u, q) && q.contains(self.v[u].spos) && forall|i: int| #[trigger] q.contains(i) ==> self.rin(u, i)
    }
    // a set of pairwise adjacent vertices
    pub open spec fn clq(self, q: Set<int>) -> bool {
        &&& forall|a: int| #[trigger] q.contains(a) ==> 1 <= a < self.n()
        &&& forall|a: int, b: int| #[trigger] q.contains(a) && #[trigger] q.contains(b) ==> self.adj(a, b)
    }
}
// a list of distinct, pairwise adjacent vertices
pub open spec fn clq_list(s: Sh, c: Seq<u64>) -> bool {
    &&& forall|i: int| 0 <= i < c.len() ==> 1 <= #[trigger] c[i] < s.n()
    &&& forall|i: int, j: int| 0 <= i < j < c.len() ==> #[trigger] c[i] < #[trigger] c[j] && s.adj(c[i] as int, c[j] as int)
}
// c lists vertices that indices in q into u's list stand for
pub open spec fn onlist(s: Sh, u: int, q: Set<int>, w: int) -> bool { exists|k: int| q.contains(k) && #[trigger] s.nb(u, k) == w }
pub open spec fn lists_k(s: Sh, u: int, q: Set<int>, c: Seq<u64>) -> bool { forall|i: int| 0 <= i < c.len() ==> onlist(s, u, q, #[trigger] c[i] as int) }

pub proof fn lemma_rcount(s: Sh, u: int, k: int)
    requires 0 <= k,
    ensures s.rcount(u, k) == s.rset(u, k).len(), 0 <= s.rcount(u, k) <= k,
    decreases k,
{
    if k > 0 {
        lemma_rcount(s, u, k - 1);
        if s.rin(u, k - 1) {
            assert(s.rset(u, k) =~= s.rset(u, k - 1).insert(k - 1));
        } else {
            assert(s.rset(u, k) =~= s.rset(u, k - 1));
        }
    } else {
        assert(s.rset(u, k) =~= Set::empty());
    }
}
pub proof fn lemma_rcount_mono(s: Sh, u: int, a: int, b: int)
    requires 0 <= a <= b,
    ensures s.rcount(u, a) <= s.rcount(u, b),
    decreases b - a,
{ if a < b { lemma_rcount_mono(s, u, a, b - 1); } }
// no clique rooted at u is larger than the number of vertices taking part
pub proof fn lemma_rclq_bound(s: Sh, u: int, q: Set<int>)
    requires s.rclq(u, q), 0 <= s.v[u].N,
    ensures q.len() <= s.rcount(u, s.v[u].N),
{
    lemma_rcount(s, u, s.v[u].N);
    assert(q.subset_of(s.rset(u, s.v[u].N)));
    lemma_len_subset(q, s.rset(u, s.v[u].N));
}
// the neighbour lists are sorted, so positions before spos hold smaller labels
pub proof fn lemma_side(s: Sh, u: int, j: int)
    requires s.vok(u), 0 <= j < s.v[u].N,
    ensures j < s.v[u].spos ==> s.nb(u, j) < u, j > s.v[u].spos ==> s.nb(u, j) > u,
{
    assert(s.nb(u, s.v[u].spos) == u);
}
pub proof fn lemma_zero(s: Sh, u: int)
    requires s.ok(), 1 <= u < s.n(),
    ensures !s.adj(u, 0), !s.adj(0, u), forall|k: int| 0 <= k < s.v[u].N ==> #[trigger] s.nb(u, k) >= 1,
{
    assert(s.vok(0) && s.vok(u));
    assert(s.nb(0, 0) == 0);
    if s.adj(0, u) {
        let k = choose|k: int| 0 <= k < s.v[0].N && #[trigger] s.nb(0, k) == u;
    }
    assert forall|k: int| 0 <= k < s.v[u].N implies #[trigger] s.nb(u, k) >= 1 by {
        if s.nb(u, k) == 0 { assert(s.adj(u, 0)); }
    }
}
