@lib
// ---- distances of a set
pub open spec fn near(a: real, b: real, e: real) -> bool { a - b <= e && b - a <= e }
pub open spec fn pair_at(p: pair_dist, i: int, j: int) -> bool { p.first == i && p.second == j }
pub open spec fn listed(s: Seq<pair_dist>, n: int, i: int, j: int) -> bool { exists|k: int| 0 <= k < n && pair_at(#[trigger] s[k], i, j) }
pub open spec fn by_dist(s: Seq<pair_dist>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).dist@ <= (#[trigger] s[j]).dist@ }
// pairs before row i
pub open spec fn prows(sym: bool, n: int, i: int) -> int decreases i { if i <= 0 { 0 } else { prows(sym, n, i - 1) + (if sym { n - i } else { n - 1 }) } }
pub open spec fn npairs(sym: bool, n: int) -> int { if sym { n * (n - 1) / 2 } else { n * (n - 1) } }
pub open spec fn is_pair(sym: bool, n: int, i: int, j: int) -> bool { 0 <= i < n && 0 <= j < n && i != j && (sym ==> i < j) }
impl relset {
    // every pair of elements once, ordered by distance
    pub open spec fn shaped(self) -> bool {
        &&& self.dists@.len() == npairs(self.symmetric, self.N as int) && by_dist(self.dists@)
        &&& forall|k: int| 0 <= k < self.dists@.len() ==> is_pair(self.symmetric, self.N as int, (#[trigger] self.dists@[k]).first as int, self.dists@[k].second as int)
        &&& forall|i: int, j: int| #[trigger] is_pair(self.symmetric, self.N as int, i, j) ==> listed(self.dists@, self.dists@.len() as int, i, j)
    }
    pub open spec fn measured(self, l: PyObj) -> bool {
        forall|k: int| 0 <= k < self.dists@.len() ==> (#[trigger] self.dists@[k]).dist@ == self.delfunc.d(l, self.dists@[k].first as int, self.dists@[k].second as int)
    }
    // the distance used for i and j
    pub open spec fn dst(self, l: PyObj, i: int, j: int) -> real { dst(self.delfunc, l, self.symmetric, i, j) }
}
pub open spec fn dst(m: Metric, l: PyObj, sym: bool, i: int, j: int) -> real { if sym && j < i { m.d(l, j, i) } else { m.d(l, i, j) } }
pub proof fn lemma_prows(sym: bool, n: int, i: int)
    requires 0 <= i <= n,
    ensures prows(sym, n, i) >= 0, prows(sym, n, i) <= npairs(sym, n), prows(sym, n, n) == npairs(sym, n), i < n ==> prows(sym, n, i + 1) <= npairs(sym, n),
        i < n ==> prows(sym, n, i + 1) == prows(sym, n, i) + (if sym { n - 1 - i } else { n - 1 }), prows(sym, n, i) <= n * (n - 1),
{
    lemma_prows_closed(sym, n, i); lemma_prows_closed(sym, n, n);
    if i < n { lemma_prows_closed(sym, n, i + 1); }
    let m = n - i;
    assert(n * (n - 1) - i * (2 * n - i - 1) == m * (m - 1)) by(nonlinear_arith) requires m == n - i;
    assert(m * (m - 1) >= 0) by(nonlinear_arith) requires m >= 0;
    assert(i * (n - 1) <= n * (n - 1)) by(nonlinear_arith) requires 0 <= i <= n, n >= 1 || n == 0;
    assert(i * (2 * n - i - 1) >= 0) by(nonlinear_arith) requires 0 <= i <= n;
    assert(i * (n - 1) >= 0) by(nonlinear_arith) requires 0 <= i <= n;
    if i < n {
        let k = i + 1; let m2 = n - k;
        assert(n * (n - 1) - k * (2 * n - k - 1) == m2 * (m2 - 1)) by(nonlinear_arith) requires m2 == n - k;
        assert(m2 * (m2 - 1) >= 0) by(nonlinear_arith) requires m2 >= 0;
        assert(k * (n - 1) <= n * (n - 1)) by(nonlinear_arith) requires 0 <= k <= n, n >= 1;
    }
    assert(n * (2 * n - n - 1) == n * (n - 1)) by(nonlinear_arith);
}
pub proof fn lemma_prows_closed(sym: bool, n: int, i: int)
    requires 0 <= i <= n,
    ensures sym ==> 2 * prows(sym, n, i) == i * (2 * n - i - 1), !sym ==> prows(sym, n, i) == i * (n - 1),
    decreases i,
{
    if i > 0 {
        lemma_prows_closed(sym, n, i - 1);
        let k = i - 1;
        assert(i * (2 * n - i - 1) == k * (2 * n - k - 1) + 2 * (n - i)) by(nonlinear_arith) requires k == i - 1;
        assert(i * (n - 1) == k * (n - 1) + (n - 1)) by(nonlinear_arith) requires k == i - 1;
    }
}
// what has been listed when row i is at column j
pub open spec fn in_row(sym: bool, i: int, j: int) -> int { if sym { j - i - 1 } else if j > i { j - 1 } else { j } }
pub open spec fn filling(r: relset, l: PyObj, n: int, i: int, j: int) -> bool {
    &&& n <= r.dists@.len() == npairs(r.symmetric, r.N as int)
    &&& forall|k: int| 0 <= k < n ==> is_pair(r.symmetric, r.N as int, (#[trigger] r.dists@[k]).first as int, r.dists@[k].second as int)
    &&& forall|k: int| 0 <= k < n ==> (#[trigger] r.dists@[k]).dist@ == r.delfunc.d(l, r.dists@[k].first as int, r.dists@[k].second as int)
    &&& forall|a: int, b: int| (a < i || (a == i && b < j)) && #[trigger] is_pair(r.symmetric, r.N as int, a, b) ==> listed(r.dists@, n, a, b)
}
pub proof fn lemma_fill(r: relset, r2: relset, l: PyObj, n: int, i: int, j: int)
    requires filling(r, l, n, i, j), 0 <= n < r.dists@.len(), is_pair(r.symmetric, r.N as int, i, j),
        r2.symmetric == r.symmetric, r2.N == r.N, r2.delfunc == r.delfunc, r2.dists@.len() == r.dists@.len(),
        forall|k: int| 0 <= k < n ==> #[trigger] r2.dists@[k] == r.dists@[k],
        pair_at(r2.dists@[n], i, j), r2.dists@[n].dist@ == r.delfunc.d(l, i, j),
    ensures filling(r2, l, n + 1, i, j + 1),
{
    assert forall|a: int, b: int| (a < i || (a == i && b < j + 1)) && #[trigger] is_pair(r2.symmetric, r2.N as int, a, b) implies listed(r2.dists@, n + 1, a, b) by {
        if a == i && b == j { assert(pair_at(r2.dists@[n], a, b)); }
        else {
            assert(is_pair(r.symmetric, r.N as int, a, b));
            let k = choose|k: int| 0 <= k < n && pair_at(#[trigger] r.dists@[k], a, b);
            assert(pair_at(r2.dists@[k], a, b));
        }
    }
}
pub proof fn lemma_fill_skip(r: relset, l: PyObj, n: int, i: int, j: int, i2: int, j2: int)
    requires filling(r, l, n, i, j), (i2 == i && j2 == j + 1 && !is_pair(r.symmetric, r.N as int, i, j)) || (i2 == i + 1 && j >= r.N && j2 == 0) || (i2 == i && r.symmetric && j2 <= i + 1),
    ensures filling(r, l, n, i2, j2),
{
    assert forall|a: int, b: int| (a < i2 || (a == i2 && b < j2)) && #[trigger] is_pair(r.symmetric, r.N as int, a, b) implies listed(r.dists@, n, a, b) by {}
}
pub proof fn lemma_filled(a: relset, b: relset, l: PyObj)
    requires filling(a, l, a.dists@.len() as int, a.N as int, 0), shuffled(a.dists@, b.dists@, 0, a.dists@.len() as int), by_dist(b.dists@),
        b.symmetric == a.symmetric, b.N == a.N, b.delfunc == a.delfunc,
    ensures b.shaped(), b.measured(l),
{
    let (p, q) = choose|p: Seq<int>, q: Seq<int>| #[trigger] shuffled_by(a.dists@, b.dists@, 0, a.dists@.len() as int, p, q);
    assert forall|k: int| 0 <= k < b.dists@.len() implies is_pair(b.symmetric, b.N as int, (#[trigger] b.dists@[k]).first as int, b.dists@[k].second as int)
        && b.dists@[k].dist@ == b.delfunc.d(l, b.dists@[k].first as int, b.dists@[k].second as int) by { assert(b.dists@[k] == a.dists@[p[k]]); }
    assert forall|i: int, j: int| #[trigger] is_pair(b.symmetric, b.N as int, i, j) implies listed(b.dists@, b.dists@.len() as int, i, j) by {
        assert(is_pair(a.symmetric, a.N as int, i, j));
        let k = choose|k: int| 0 <= k < a.dists@.len() && pair_at(#[trigger] a.dists@[k], i, j);
        assert(p[q[k]] == k && b.dists@[q[k]] == a.dists@[p[q[k]]]);
        assert(pair_at(b.dists@[q[k]], i, j));
    }
}

@fn pair_dist::op_lt_pair_dist(BB)
@ensures
    r == (self.dist@ < BB.dist@),

@fn pair_dist::op_lt_d(dist_val)
@ensures
    r == (self.dist@ < dist_val@),

@fn pair_dist::op_gt_d(dist_val)
@ensures
    r == (self.dist@ > dist_val@),

@fn pair_dist::op_eq_d(dist_val)
@ensures
    r == (self.dist@ == dist_val@),

@fn binary_find2(a, N, val, loc)
@locals u64 beg, u64 end, u64 mid
@opt wrapping_sub
@requires
    1 <= N <= a@.len() < 0x8000_0000_0000_0000, by_dist(a@.take(N as int)),
@ensures
    *final(loc) < N, (r == -1) == (a@[N - 1].dist@ < val@),
@loop 1
@invariant
    1 <= N <= a@.len() < 0x8000_0000_0000_0000, beg <= N, end < N, beg <= end + 1, beg <= end ==> beg <= mid <= end,
    a@[0].dist@ <= val@, *loc < N || beg <= end, !(a@[N - 1].dist@ < val@),
@loop_decreases
    end + 1 - beg
@at begin
    proof { lemma_shr1((N - 1) as u64); }
@at before /mid = /
    proof { lemma_shr1(if beg <= end { (end - beg) as u64 } else { (end - beg + 0x1_0000_0000_0000_0000) as u64 }); }

@fn relset::new_u_func_b(N, dfunc, symmetric)
@opt wrapping_sub
@requires
    N < 0x1_0000_0000,
@ensures
    r.N == N, r.symmetric == symmetric, r.delfunc == *dfunc, r.dists@.len() == npairs(symmetric, N as int),
@at begin
    proof { assert(N > 0 ==> 0 <= N * (N - 1) < 0x1_0000_0000 * 0x1_0000_0000) by(nonlinear_arith) requires N < 0x1_0000_0000; }

@fn relset::fill_dists(x)
@locals u64 i, u64 j, u64 count
@requires
    old(self).N < 0x1_0000_0000, old(self).dists@.len() == npairs(old(self).symmetric, old(self).N as int),
@ensures
    final(self).N == old(self).N, final(self).symmetric == old(self).symmetric, final(self).delfunc == old(self).delfunc,
    final(self).dists@.len() == old(self).dists@.len(),
    r is Ok ==> final(self).shaped() && final(self).measured(*x),
    r is Err ==> throws(old(self).delfunc, *x, old(self).N as int),
@loop 1
@invariant
    self.N == old(self).N, self.symmetric == old(self).symmetric, self.delfunc == old(self).delfunc, self.dists@.len() == old(self).dists@.len(),
    self.N < 0x1_0000_0000, i <= self.N, count == prows(self.symmetric, self.N as int, i as int), filling(*self, *x, count as int, i as int, 0),
@loop_decreases
    self.N - i
@loop 2
@invariant
    self.N == old(self).N, self.symmetric == old(self).symmetric, self.delfunc == old(self).delfunc, self.dists@.len() == old(self).dists@.len(),
    self.N < 0x1_0000_0000, i < self.N, j <= self.N, self.symmetric ==> i < j,
    count == prows(self.symmetric, self.N as int, i as int) + in_row(self.symmetric, i as int, j as int),
    filling(*self, *x, count as int, i as int, j as int),
@loop_decreases
    self.N - j
@at loop 1 begin
    proof {
        lemma_prows(self.symmetric, self.N as int, i as int);
        if self.symmetric { lemma_fill_skip(*self, *x, count as int, i as int, 0, i as int, i + 1); }
    }
@at loop 2 begin
    let ghost s0 = *self; let ghost c0 = count as int;
    proof {
        lemma_prows(self.symmetric, self.N as int, i as int);
        assert(self.N * (self.N - 1) < 0x1_0000_0000 * 0x1_0000_0000) by(nonlinear_arith) requires self.N < 0x1_0000_0000;
    }
@at loop 2 body_end
    proof {
        if i == j { lemma_fill_skip(*self, *x, count as int, i as int, j as int, i as int, j + 1); }
        else { lemma_fill(s0, *self, *x, c0, i as int, j as int); }
    }
@at loop 2 after
    proof { lemma_fill_skip(*self, *x, count as int, i as int, j as int, i + 1, 0); }
@at loop 1 after
    let ghost s1 = *self;
    proof { lemma_prows(self.symmetric, self.N as int, self.N as int); }
@at end
    proof { lemma_filled(s1, *self, *x); }

@lib
// ---- edges between pairs of elements
pub open spec fn vid(i: int, a: int, n: int) -> int { enc(i + 1, a + 1, n) }
pub open spec fn same(x: int, y: int, u: int, v: int) -> bool { (x == u && y == v) || (x == v && y == u) }
pub type Con = spec_fn(int, int, int, int) -> bool;
pub open spec fn always() -> Con { |i: int, j: int, a: int, b: int| true }
pub open spec fn con_of(f: Cond, l1: PyObj, l2: PyObj) -> Con { |i: int, j: int, a: int, b: int| f.holds(l1, i, j, l2, a, b) }
// the condition does not depend on the order in which the two pairs are named
pub open spec fn ordless(c: Con, n1: int, n2: int) -> bool {
    forall|i: int, j: int, a: int, b: int| 0 <= i < n1 && 0 <= j < n1 && 0 <= a < n2 && 0 <= b < n2 && #[trigger] c(i, j, a, b) ==> c(j, i, b, a)
}
// what two pairs of elements with agreeing distances join
pub open spec fn joins(i: int, j: int, a: int, b: int, alt: bool, n: int, c: Con, x: int, y: int) -> bool {
    (c(i, j, a, b) && same(x, y, vid(i, a, n), vid(j, b, n))) || (alt && c(i, j, b, a) && same(x, y, vid(j, a, n), vid(i, b, n)))
}
pub open spec fn hit_at(s1: relset, s2: relset, e: real, c: Con, k: int, l: int, x: int, y: int) -> bool {
    let p = s1.dists@[k]; let q = s2.dists@[l];
    0 <= k < s1.dists@.len() && 0 <= l < s2.dists@.len() && near(p.dist@, q.dist@, e)
    && joins(p.first as int, p.second as int, q.first as int, q.second as int, s1.symmetric || s2.symmetric, s2.N as int, c, x, y)
}
pub open spec fn ef_to(s1: relset, s2: relset, e: real, c: Con, i: int, j: int, x: int, y: int) -> bool {
    exists|k: int, l: int| before2(i, j, k, l) && #[trigger] hit_at(s1, s2, e, c, k, l, x, y)
}
#[verifier::opaque]
pub open spec fn ef_inv(s1: relset, s2: relset, e: real, c: Con, i: int, j: int, p: Seq<u64>, q: Seq<u64>) -> bool {
    p.len() == q.len() && forall|x: int, y: int| #[trigger] hasp(p, q, x, y) == ((0 <= x == y <= s1.N * s2.N) || ef_to(s1, s2, e, c, i, j, x, y))
}
pub open spec fn tail4(p: Seq<u64>, q: Seq<u64>, n: int, x: int, y: int) -> bool {
    (n < p.len() && p[n] == x && q[n] == y) || (n + 1 < p.len() && p[n + 1] == x && q[n + 1] == y)
    || (n + 2 < p.len() && p[n + 2] == x && q[n + 2] == y) || (n + 3 < p.len() && p[n + 3] == x && q[n + 3] == y)
}
pub open spec fn extends(p: Seq<u64>, p2: Seq<u64>) -> bool { p.len() <= p2.len() <= p.len() + 4 && forall|k: int| 0 <= k < p.len() ==> #[trigger] p2[k] == p[k] }
pub proof fn lemma_tail4(p: Seq<u64>, q: Seq<u64>, p2: Seq<u64>, q2: Seq<u64>)
    requires p.len() == q.len(), p2.len() == q2.len(), extends(p, p2), extends(q, q2),
    ensures forall|x: int, y: int| #[trigger] hasp(p2, q2, x, y) == (hasp(p, q, x, y) || tail4(p2, q2, p.len() as int, x, y)),
{
    let n = p.len() as int;
    assert forall|x: int, y: int| #[trigger] hasp(p2, q2, x, y) == (hasp(p, q, x, y) || tail4(p2, q2, n, x, y)) by {
        if hasp(p2, q2, x, y) {
            let k = choose|k: int| 0 <= k < p2.len() && #[trigger] p2[k] == x as u64 && q2[k] == y as u64;
            if k < n { assert(p[k] == x as u64 && q[k] == y as u64); }
            else { assert(k == n || k == n + 1 || k == n + 2 || k == n + 3); }
        }
        if hasp(p, q, x, y) {
            let k = choose|k: int| 0 <= k < p.len() && #[trigger] p[k] == x as u64 && q[k] == y as u64;
            assert(p2[k] == x as u64 && q2[k] == y as u64);
        }
        if tail4(p2, q2, n, x, y) {
            let k = if p2[n] == x && q2[n] == y { n } else if n + 1 < p2.len() && p2[n + 1] == x && q2[n + 1] == y { n + 1 } else if n + 2 < p2.len() && p2[n + 2] == x && q2[n + 2] == y { n + 2 } else { n + 3 };
            assert(p2[k] == x as u64 && q2[k] == y as u64);
        }
    }
}
pub proof fn lemma_vid(i: int, a: int, m: int, n: int)
    requires 0 <= i < m, 0 <= a < n,
    ensures vid(i, a, n) == i * n + a + 1, 1 <= vid(i, a, n) <= m * n, 0 <= i * n <= m * n, dec1(vid(i, a, n), n) == i + 1, dec2(vid(i, a, n), n) == a + 1,
{ lemma_enc(i + 1, a + 1, m, n); assert(i + 1 - 1 == i); }
pub proof fn lemma_ef_init(s1: relset, s2: relset, e: real, c: Con, p: Seq<u64>, q: Seq<u64>)
    requires p.len() == q.len() == s1.N * s2.N + 1, s1.N * s2.N < u64::MAX, forall|k: int| 0 <= k < p.len() ==> #[trigger] p[k] == k, forall|k: int| 0 <= k < p.len() ==> #[trigger] q[k] == k,
    ensures ef_inv(s1, s2, e, c, 0, 0, p, q),
{
    reveal(ef_inv);
    lemma_ids(p, q, s1.N * s2.N);
    assert forall|x: int, y: int| #[trigger] hasp(p, q, x, y) == ((0 <= x == y <= s1.N * s2.N) || ef_to(s1, s2, e, c, 0, 0, x, y)) by {}
}
pub proof fn lemma_ef_step(s1: relset, s2: relset, e: real, c: Con, i: int, j: int, p: Seq<u64>, q: Seq<u64>, p2: Seq<u64>, q2: Seq<u64>)
    requires ef_inv(s1, s2, e, c, i, j, p, q), 0 <= i, 0 <= j, p2.len() == q2.len(), extends(p, p2), extends(q, q2),
        forall|x: int, y: int| #[trigger] tail4(p2, q2, p.len() as int, x, y) == hit_at(s1, s2, e, c, i, j, x, y),
    ensures ef_inv(s1, s2, e, c, i, j + 1, p2, q2),
{
    reveal(ef_inv);
    lemma_tail4(p, q, p2, q2);
    assert forall|x: int, y: int| #[trigger] hasp(p2, q2, x, y) == ((0 <= x == y <= s1.N * s2.N) || ef_to(s1, s2, e, c, i, j + 1, x, y)) by {
        assert(hasp(p, q, x, y) == ((0 <= x == y <= s1.N * s2.N) || ef_to(s1, s2, e, c, i, j, x, y)));
        if ef_to(s1, s2, e, c, i, j + 1, x, y) {
            let (k, l) = choose|k: int, l: int| before2(i, j + 1, k, l) && #[trigger] hit_at(s1, s2, e, c, k, l, x, y);
            if k == i && l == j { assert(tail4(p2, q2, p.len() as int, x, y)); }
            else { assert(before2(i, j, k, l)); assert(ef_to(s1, s2, e, c, i, j, x, y)); }
        }
        if ef_to(s1, s2, e, c, i, j, x, y) {
            let (k, l) = choose|k: int, l: int| before2(i, j, k, l) && #[trigger] hit_at(s1, s2, e, c, k, l, x, y);
            assert(before2(i, j + 1, k, l));
        }
        if hit_at(s1, s2, e, c, i, j, x, y) { assert(before2(i, j + 1, i, j)); }
    }
}
pub open spec fn distant(s1: relset, s2: relset, e: real, k: int, l: int) -> bool { !near(s1.dists@[k].dist@, s2.dists@[l].dist@, e) }
pub proof fn lemma_ef_skip(s1: relset, s2: relset, e: real, c: Con, i: int, j: int, i2: int, j2: int, p: Seq<u64>, q: Seq<u64>)
    requires ef_inv(s1, s2, e, c, i, j, p, q), i < i2 || (i == i2 && j <= j2),
        forall|k: int, l: int| 0 <= k < s1.dists@.len() && 0 <= l < s2.dists@.len() && !before2(i, j, k, l) && before2(i2, j2, k, l) ==> #[trigger] distant(s1, s2, e, k, l),
    ensures ef_inv(s1, s2, e, c, i2, j2, p, q),
{
    reveal(ef_inv);
    assert forall|x: int, y: int| #[trigger] hasp(p, q, x, y) == ((0 <= x == y <= s1.N * s2.N) || ef_to(s1, s2, e, c, i2, j2, x, y)) by {
        assert(hasp(p, q, x, y) == ((0 <= x == y <= s1.N * s2.N) || ef_to(s1, s2, e, c, i, j, x, y)));
        if ef_to(s1, s2, e, c, i2, j2, x, y) {
            let (k, l) = choose|k: int, l: int| before2(i2, j2, k, l) && #[trigger] hit_at(s1, s2, e, c, k, l, x, y);
            if !before2(i, j, k, l) { assert(distant(s1, s2, e, k, l)); }
            assert(ef_to(s1, s2, e, c, i, j, x, y));
        }
        if ef_to(s1, s2, e, c, i, j, x, y) {
            let (k, l) = choose|k: int, l: int| before2(i, j, k, l) && #[trigger] hit_at(s1, s2, e, c, k, l, x, y);
            assert(before2(i2, j2, k, l));
        }
    }
}
// the distances before lb are too small
pub proof fn lemma_ef_start(s1: relset, s2: relset, e: real, c: Con, i: int, lb: int, p: Seq<u64>, q: Seq<u64>)
    requires ef_inv(s1, s2, e, c, i, 0, p, q), by_dist(s2.dists@), 0 <= lb <= s2.dists@.len(), lb > 0 ==> s2.dists@[lb - 1].dist@ < s1.dists@[i].dist@ - e,
    ensures ef_inv(s1, s2, e, c, i, lb, p, q),
{
    assert forall|k: int, l: int| 0 <= k < s1.dists@.len() && 0 <= l < s2.dists@.len() && !before2(i, 0, k, l) && before2(i, lb, k, l) implies #[trigger] distant(s1, s2, e, k, l) by {
        assert(s2.dists@[l].dist@ <= s2.dists@[lb - 1].dist@);
    }
    lemma_ef_skip(s1, s2, e, c, i, 0, i, lb, p, q);
}
// those from j on are too large
pub proof fn lemma_ef_row(s1: relset, s2: relset, e: real, c: Con, i: int, j: int, p: Seq<u64>, q: Seq<u64>)
    requires ef_inv(s1, s2, e, c, i, j, p, q), by_dist(s2.dists@), 0 <= j, j < s2.dists@.len() ==> s2.dists@[j].dist@ > s1.dists@[i].dist@ + e,
    ensures ef_inv(s1, s2, e, c, i + 1, 0, p, q),
{
    assert forall|k: int, l: int| 0 <= k < s1.dists@.len() && 0 <= l < s2.dists@.len() && !before2(i, j, k, l) && before2(i + 1, 0, k, l) implies #[trigger] distant(s1, s2, e, k, l) by {
        assert(s2.dists@[j].dist@ <= s2.dists@[l].dist@);
    }
    lemma_ef_skip(s1, s2, e, c, i, j, i + 1, 0, p, q);
}
// all of them are too small for the rest, or there is nothing left
pub proof fn lemma_ef_rest(s1: relset, s2: relset, e: real, c: Con, i: int, p: Seq<u64>, q: Seq<u64>)
    requires ef_inv(s1, s2, e, c, i, 0, p, q), by_dist(s1.dists@), by_dist(s2.dists@), 0 <= i <= s1.dists@.len(),
        i < s1.dists@.len() ==> s2.dists@.len() == 0 || s2.dists@.last().dist@ < s1.dists@[i].dist@ - e,
    ensures ef_inv(s1, s2, e, c, s1.dists@.len() as int, 0, p, q),
{
    let n = s1.dists@.len() as int;
    assert forall|k: int, l: int| 0 <= k < s1.dists@.len() && 0 <= l < s2.dists@.len() && !before2(i, 0, k, l) && before2(n, 0, k, l) implies #[trigger] distant(s1, s2, e, k, l) by {
        assert(s2.dists@[l].dist@ <= s2.dists@.last().dist@);
        assert(s1.dists@[i].dist@ <= s1.dists@[k].dist@);
    }
    lemma_ef_skip(s1, s2, e, c, i, 0, n, 0, p, q);
}
pub open spec fn good(s1: relset, s2: relset, e: real, c: Con, x: int, y: int) -> bool { ef_to(s1, s2, e, c, s1.dists@.len() as int, 0, x, y) }
pub proof fn lemma_ef_end(s1: relset, s2: relset, e: real, c: Con, p: Seq<u64>, q: Seq<u64>)
    requires ef_inv(s1, s2, e, c, s1.dists@.len() as int, 0, p, q), s1.shaped(), s2.shaped(), s1.N * s2.N < 0xFFFF_FFF0, p.len() < 0x1000_0000_0000,
    ensures edges_ok(p, q, s1.N * s2.N), forall|x: int, y: int| #[trigger] hasp(p, q, x, y) == ((0 <= x == y <= s1.N * s2.N) || good(s1, s2, e, c, x, y)),
{
    reveal(ef_inv);
    let n = s1.N * s2.N;
    assert forall|x: int, y: int| #[trigger] good(s1, s2, e, c, x, y) implies 1 <= x <= n && 1 <= y <= n && good(s1, s2, e, c, y, x) by {
        let (k, l) = choose|k: int, l: int| before2(s1.dists@.len() as int, 0, k, l) && #[trigger] hit_at(s1, s2, e, c, k, l, x, y);
        let a = s1.dists@[k]; let b = s2.dists@[l];
        lemma_vid(a.first as int, b.first as int, s1.N as int, s2.N as int); lemma_vid(a.second as int, b.second as int, s1.N as int, s2.N as int);
        lemma_vid(a.second as int, b.first as int, s1.N as int, s2.N as int); lemma_vid(a.first as int, b.second as int, s1.N as int, s2.N as int);
        assert(hit_at(s1, s2, e, c, k, l, y, x));
    }
    assert forall|x: int, y: int| #[trigger] hasp(p, q, x, y) == ((0 <= x == y <= n) || good(s1, s2, e, c, x, y)) by {}
    assert(n >= 0) by(nonlinear_arith) requires n == s1.N * s2.N, s1.N >= 0, s2.N >= 0;
    assert forall|i: int| 0 <= i < p.len() implies #[trigger] p[i] <= n && q[i] <= n by {
        assert(in2(p, q, 0, p.len() as int, p[i], q[i]));
        assert(hasp(p, q, p[i] as int, q[i] as int));
    }
    assert forall|x: int| 0 <= x <= n implies #[trigger] hasp(p, q, x, x) by {}
    assert forall|x: int, y: int| #[trigger] hasp(p, q, x, y) implies hasp(p, q, y, x) by {}
    assert forall|y: int| #[trigger] hasp(p, q, 0, y) implies y == 0 by {}
}
// ---- the relation between pairs: (i, a) and (j, b) differ in both components, and the distances agree in one direction at least
pub open spec fn agree(s1: relset, l1: PyObj, s2: relset, l2: PyObj, e: real, i: int, j: int, a: int, b: int) -> bool {
    near(s1.dst(l1, i, j), s2.dst(l2, a, b), e) || near(s1.dst(l1, j, i), s2.dst(l2, b, a), e)
}
pub open spec fn cor(s1: relset, l1: PyObj, s2: relset, l2: PyObj, e: real, c: Con, x: int, y: int) -> bool {
    let n = s2.N as int;
    let (i, a, j, b) = (dec1(x, n) - 1, dec2(x, n) - 1, dec1(y, n) - 1, dec2(y, n) - 1);
    1 <= x <= s1.N * n && 1 <= y <= s1.N * n && i != j && a != b && c(i, j, a, b) && agree(s1, l1, s2, l2, e, i, j, a, b)
}
pub proof fn lemma_cor_hit(s1: relset, l1: PyObj, s2: relset, l2: PyObj, e: real, c: Con, x: int, y: int)
    requires cor(s1, l1, s2, l2, e, c, x, y), s1.shaped(), s2.shaped(), s1.measured(l1), s2.measured(l2), ordless(c, s1.N as int, s2.N as int), s2.N >= 1,
        ({ let n = s2.N as int; near(s1.dst(l1, dec1(x, n) - 1, dec1(y, n) - 1), s2.dst(l2, dec2(x, n) - 1, dec2(y, n) - 1), e) }),
    ensures good(s1, s2, e, c, x, y), good(s1, s2, e, c, y, x),
{
    let n = s2.N as int; let m = s1.N as int;
    lemma_dec(x, m, n); lemma_dec(y, m, n);
    let (i, a, j, b) = (dec1(x, n) - 1, dec2(x, n) - 1, dec1(y, n) - 1, dec2(y, n) - 1);
    let (i2, j2) = if is_pair(s1.symmetric, m, i, j) { (i, j) } else { (j, i) };
    let (a2, b2) = if is_pair(s2.symmetric, n, a, b) { (a, b) } else { (b, a) };
    assert(is_pair(s1.symmetric, m, i2, j2) && is_pair(s2.symmetric, n, a2, b2));
    let k = choose|k: int| 0 <= k < s1.dists@.len() && pair_at(#[trigger] s1.dists@[k], i2, j2);
    let l = choose|l: int| 0 <= l < s2.dists@.len() && pair_at(#[trigger] s2.dists@[l], a2, b2);
    assert(s1.dists@[k].dist@ == s1.dst(l1, i, j));
    assert(s2.dists@[l].dist@ == s2.dst(l2, a, b));
    assert(x == vid(i, a, n) && y == vid(j, b, n));
    assert(c(j, i, b, a));
    assert(hit_at(s1, s2, e, c, k, l, x, y));
    assert(hit_at(s1, s2, e, c, k, l, y, x));
    assert(before2(s1.dists@.len() as int, 0, k, l));
}
pub proof fn lemma_good(s1: relset, l1: PyObj, s2: relset, l2: PyObj, e: real, c: Con, x: int, y: int)
    requires s1.shaped(), s2.shaped(), s1.measured(l1), s2.measured(l2), ordless(c, s1.N as int, s2.N as int), s2.N >= 1,
    ensures good(s1, s2, e, c, x, y) == cor(s1, l1, s2, l2, e, c, x, y),
{
    let n = s2.N as int; let m = s1.N as int;
    if cor(s1, l1, s2, l2, e, c, x, y) {
        lemma_dec(x, m, n); lemma_dec(y, m, n);
        let (i, a, j, b) = (dec1(x, n) - 1, dec2(x, n) - 1, dec1(y, n) - 1, dec2(y, n) - 1);
        assert(c(j, i, b, a));
        if near(s1.dst(l1, i, j), s2.dst(l2, a, b), e) { lemma_cor_hit(s1, l1, s2, l2, e, c, x, y); }
        else { lemma_cor_hit(s1, l1, s2, l2, e, c, y, x); }
    }
    if good(s1, s2, e, c, x, y) {
        let (k, l) = choose|k: int, l: int| before2(s1.dists@.len() as int, 0, k, l) && #[trigger] hit_at(s1, s2, e, c, k, l, x, y);
        let p = s1.dists@[k]; let q = s2.dists@[l];
        let (i, j, a, b) = (p.first as int, p.second as int, q.first as int, q.second as int);
        lemma_vid(i, a, m, n); lemma_vid(j, b, m, n); lemma_vid(j, a, m, n); lemma_vid(i, b, m, n);
        assert(c(i, j, a, b) ==> c(j, i, b, a));
        assert(c(i, j, b, a) ==> c(j, i, a, b));
        assert(p.dist@ == s1.dst(l1, i, j) && q.dist@ == s2.dst(l2, a, b));
    }
}
pub proof fn lemma_pair_count(sym: bool, n: int)
    requires 1 <= n < 0x1_0000_0000,
    ensures 0 <= n * (n - 1) < 0x1_0000_0000 * 0x1_0000_0000, n * (n - 1) <= u64::MAX, npairs(sym, n) <= n * (n - 1), n == 1 ==> npairs(sym, n) == 0,
{ assert(0 <= n * (n - 1) && n * (n - 1) <= 0xFFFF_FFFF * 0xFFFF_FFFE) by(nonlinear_arith) requires 1 <= n < 0x1_0000_0000; }

@fn edges_from_relsets(n_vert, n_edges, s1, s2, epsilon)
@locals u64 M, u64 N, u64 i, u64 j, u64 v1, u64 v2, u64 len1, u64 len2, dbl cur_ub, dbl cur_lb, u64 lb_loc, i16 found1
@requires
    s1.shaped(), s2.shaped(), s1.N < 0x1_0000_0000, s2.N < 0x1_0000_0000, s1.N * s2.N < 0xFFFF_FFF0,
@ensures
    (r is Err) == (s1.N == 0 || s2.N == 0),
    r matches Ok(p) ==> *final(n_vert) == s1.N * s2.N && edges_ok(p.first@, p.second@, s1.N * s2.N)
        && forall|x: int, y: int| #[trigger] hasp(p.first@, p.second@, x, y) == ((0 <= x == y <= s1.N * s2.N) || good(*s1, *s2, epsilon@, always(), x, y)),
@loop 1
@invariant
    Edges.first@.len() == Edges.second@.len() == (if sized { *n_vert + 1 } else { i as int }), i <= *n_vert + 1, *n_vert < 0xFFFF_FFF0,
    forall|k: int| 0 <= k < i ==> #[trigger] Edges.first@[k] == k, forall|k: int| 0 <= k < i ==> #[trigger] Edges.second@[k] == k,
@loop_decreases
    *n_vert + 1 - i
@at loop 1 before
    let ghost sized = Edges.first@.len() > 0;
    #[verifier::loop_isolation(false)]
@loop 2
@invariant
    M == s1.N, N == s2.N, 1 <= M < 0x1_0000_0000, 1 <= N < 0x1_0000_0000, M * N < 0xFFFF_FFF0, *n_vert == M * N, s1.shaped(), s2.shaped(), len1 == s1.dists@.len(), len2 == s2.dists@.len(), Edges.first@.len() == Edges.second@.len(), 2 * *n_edges <= Edges.first@.len() < 0x1000_0000_0000,
@invariant_except_break
    i <= len1, ef_inv(*s1, *s2, epsilon@, always(), i as int, 0, Edges.first@, Edges.second@),
@loop_ensures
    ef_inv(*s1, *s2, epsilon@, always(), len1 as int, 0, Edges.first@, Edges.second@) || (i <= len1 && (len2 == 0 || i >= len1) && ef_inv(*s1, *s2, epsilon@, always(), i as int, 0, Edges.first@, Edges.second@)),
@loop_decreases
    len1 - i
@loop 3
@invariant
    M == s1.N, N == s2.N, 1 <= M < 0x1_0000_0000, 1 <= N < 0x1_0000_0000, M * N < 0xFFFF_FFF0, *n_vert == M * N, s1.shaped(), s2.shaped(), len1 == s1.dists@.len(), len2 == s2.dists@.len(), Edges.first@.len() == Edges.second@.len(), 2 * *n_edges <= Edges.first@.len() < 0x1000_0000_0000, lb_loc < len2,
@loop_decreases
    lb_loc
@loop 4
@invariant
    M == s1.N, N == s2.N, 1 <= M < 0x1_0000_0000, 1 <= N < 0x1_0000_0000, M * N < 0xFFFF_FFF0, *n_vert == M * N, s1.shaped(), s2.shaped(), len1 == s1.dists@.len(), len2 == s2.dists@.len(), Edges.first@.len() == Edges.second@.len(), 2 * *n_edges <= Edges.first@.len() < 0x1000_0000_0000, lb_loc < len2, !(s2.dists@[len2 - 1].dist@ < cur_lb@), lb_loc > 0 ==> s2.dists@[lb_loc - 1].dist@ < cur_lb@,
@loop_decreases
    len2 - lb_loc
@loop 5
@invariant
    M == s1.N, N == s2.N, 1 <= M < 0x1_0000_0000, 1 <= N < 0x1_0000_0000, M * N < 0xFFFF_FFF0, *n_vert == M * N, s1.shaped(), s2.shaped(), len1 == s1.dists@.len(), len2 == s2.dists@.len(), Edges.first@.len() == Edges.second@.len(), 2 * *n_edges <= Edges.first@.len() < 0x1000_0000_0000, i < len1, j <= len2, ef_inv(*s1, *s2, epsilon@, always(), i as int, j as int, Edges.first@, Edges.second@), cur_ub@ == s1.dists@[i as int].dist@ + epsilon@,
    lb_loc <= j, lb_loc < len2, !(s2.dists@[lb_loc as int].dist@ < s1.dists@[i as int].dist@ - epsilon@),
@loop_decreases
    len2 - j
@at loop 1 after
    proof { lemma_ef_init(*s1, *s2, epsilon@, always(), Edges.first@, Edges.second@); lemma_pair_count(s1.symmetric, M as int); lemma_pair_count(s2.symmetric, N as int); }
@at loop 2 begin
    proof {
        lemma_pair_count(s1.symmetric, M as int);
        assert(2 * N <= M * N) by(nonlinear_arith) requires M >= 2, N >= 1;
        lemma_pair_count(s2.symmetric, N as int);
        assert(N * (N - 1) < 0x8000_0000 * 0x8000_0000) by(nonlinear_arith) requires 1 <= N < 0x8000_0000;
        assert(s2.dists@.take(len2 as int) =~= s2.dists@);
    }
@at before /break;/ 1
    proof { lemma_ef_rest(*s1, *s2, epsilon@, always(), i as int, Edges.first@, Edges.second@); }
@at loop 4 after
    proof { lemma_ef_start(*s1, *s2, epsilon@, always(), i as int, lb_loc as int, Edges.first@, Edges.second@); }
@at loop 5 begin
    let ghost p0 = Edges.first@; let ghost q0 = Edges.second@;
    proof {
        let u = s1.dists@[i as int]; let v = s2.dists@[j as int];
        assert(lb_loc < j ==> s2.dists@[lb_loc as int].dist@ <= v.dist@);
        assert(near(u.dist@, v.dist@, epsilon@));
        lemma_vid(u.first as int, v.first as int, M as int, N as int); lemma_vid(u.second as int, v.second as int, M as int, N as int);
        lemma_vid(u.second as int, v.first as int, M as int, N as int); lemma_vid(u.first as int, v.second as int, M as int, N as int);
    }
@at loop 5 body_end
    proof {
        assert forall|x: int, y: int| #[trigger] tail4(Edges.first@, Edges.second@, p0.len() as int, x, y) == hit_at(*s1, *s2, epsilon@, always(), i as int, j as int, x, y) by {}
        lemma_ef_step(*s1, *s2, epsilon@, always(), i as int, j as int, p0, q0, Edges.first@, Edges.second@);
    }
@at loop 5 after
    proof { lemma_ef_row(*s1, *s2, epsilon@, always(), i as int, j as int, Edges.first@, Edges.second@); }
@at loop 2 after
    proof {
        if i <= len1 && (len2 == 0 || i >= len1) && ef_inv(*s1, *s2, epsilon@, always(), i as int, 0, Edges.first@, Edges.second@) { lemma_ef_rest(*s1, *s2, epsilon@, always(), i as int, Edges.first@, Edges.second@); }
        lemma_ef_end(*s1, *s2, epsilon@, always(), Edges.first@, Edges.second@);
    }

@lib
pub proof fn lemma_some(p: Seq<u64>, q: Seq<u64>, n: int)
    requires edges_ok(p, q, n), n >= 0,
    ensures p.len() > 0, q.len() > 0,
{ assert(hasp(p, q, 0, 0)); }
pub open spec fn cor_of(m1: Metric, l1: PyObj, sym1: bool, n1: int, m2: Metric, l2: PyObj, sym2: bool, n2: int, e: real, c: Con, x: int, y: int) -> bool {
    let (i, a, j, b) = (dec1(x, n2) - 1, dec2(x, n2) - 1, dec1(y, n2) - 1, dec2(y, n2) - 1);
    1 <= x <= n1 * n2 && 1 <= y <= n1 * n2 && i != j && a != b && c(i, j, a, b)
    && (near(dst(m1, l1, sym1, i, j), dst(m2, l2, sym2, a, b), e) || near(dst(m1, l1, sym1, j, i), dst(m2, l2, sym2, b, a), e))
}

@fn build_edges_metric_only(pg, pts1, pts1_len, pts2, pts2_len, epsilon, d1, is_d1_symmetric, d2, is_d2_symmetric)
@requires
    pts1_len < 0x1_0000_0000, pts2_len < 0x1_0000_0000, pts1_len * pts2_len < 0xFFFF_FFF0,
@ensures
    pts1_len == 0 || pts2_len == 0 ==> r is Err,
    r is Err ==> *final(pg) == *old(pg),
    // it fails only where what was given does
    r is Err ==> pts1_len == 0 || pts2_len == 0 || throws(d1, *pts1, pts1_len as int) || throws(d2, *pts2, pts2_len as int),
    r is Ok ==> r == Ok::<bool, CmError>(true) && final(pg).pwf() && final(pg).G@.len() == 1 && final(pg).nvert == pts1_len * pts2_len && !final(pg).finished_all && final(pg).current_vertex == 0
        && final(pg).nedges == edges_of(final(pg).g().sh()).len(),
    r is Ok ==> forall|x: int, y: int| #[trigger] final(pg).g().sh().adj(x, y) == ((0 <= x == y <= pts1_len * pts2_len)
        || cor_of(d1, *pts1, is_d1_symmetric, pts1_len as int, d2, *pts2, is_d2_symmetric, pts2_len as int, epsilon@, always(), x, y)),
@at after /edges_from_relsets\(/
    proof { lemma_some(edges.first@, edges.second@, pts1_len * pts2_len); }
@at before /pg\.load_graph/
    proof {
        assert forall|x: int, y: int| #[trigger] hasp(edges.first@, edges.second@, x, y) == ((0 <= x == y <= pts1_len * pts2_len)
            || cor_of(d1, *pts1, is_d1_symmetric, pts1_len as int, d2, *pts2, is_d2_symmetric, pts2_len as int, epsilon@, always(), x, y)) by {
            lemma_good(ps1, *pts1, ps2, *pts2, epsilon@, always(), x, y);
        }
    }

@fn build_edges(pg, pts1, pts1_len, pts2, pts2_len, epsilon, cfunc, d1, is_d1_symmetric, d2, is_d2_symmetric)
@requires
    pts1_len < 0x1_0000_0000, pts2_len < 0x1_0000_0000, pts1_len * pts2_len < 0xFFFF_FFF0, ordless(con_of(cfunc, *pts1, *pts2), pts1_len as int, pts2_len as int),
@ensures
    pts1_len == 0 || pts2_len == 0 ==> r is Err,
    r is Err ==> *final(pg) == *old(pg),
    // it fails only where what was given does
    r is Err ==> pts1_len == 0 || pts2_len == 0 || throws(d1, *pts1, pts1_len as int) || throws(d2, *pts2, pts2_len as int) || throws_c(cfunc, *pts1, pts1_len as int, *pts2, pts2_len as int),
    r is Ok ==> r == Ok::<bool, CmError>(true) && final(pg).pwf() && final(pg).G@.len() == 1 && final(pg).nvert == pts1_len * pts2_len && !final(pg).finished_all && final(pg).current_vertex == 0
        && final(pg).nedges == edges_of(final(pg).g().sh()).len(),
    r is Ok ==> forall|x: int, y: int| #[trigger] final(pg).g().sh().adj(x, y) == ((0 <= x == y <= pts1_len * pts2_len)
        || cor_of(d1, *pts1, is_d1_symmetric, pts1_len as int, d2, *pts2, is_d2_symmetric, pts2_len as int, epsilon@, con_of(cfunc, *pts1, *pts2), x, y)),
@loop 1
@invariant
    Edges.first@.len() == Edges.second@.len() == (if sized { no_of_vertices + 1 } else { i as int }), i <= no_of_vertices + 1, no_of_vertices < 0xFFFF_FFF0,
    forall|k: int| 0 <= k < i ==> #[trigger] Edges.first@[k] == k, forall|k: int| 0 <= k < i ==> #[trigger] Edges.second@[k] == k,
@loop_decreases
    no_of_vertices + 1 - i
@at loop 1 before
    let ghost sized = Edges.first@.len() > 0;
    #[verifier::loop_isolation(false)]
@loop 2
@invariant
    M == ps1.N == pts1_len, N == ps2.N == pts2_len, 1 <= M < 0x1_0000_0000, 1 <= N < 0x1_0000_0000, M * N < 0xFFFF_FFF0, no_of_vertices == M * N, ps1.shaped(), ps2.shaped(), len1 == ps1.dists@.len(), len2 == ps2.dists@.len(), Edges.first@.len() == Edges.second@.len(), 2 * no_of_edges <= Edges.first@.len() < 0x1000_0000_0000,
@invariant_except_break
    i <= len1, ef_inv(ps1, ps2, epsilon@, con_of(cfunc, *pts1, *pts2), i as int, 0, Edges.first@, Edges.second@),
@loop_ensures
    ef_inv(ps1, ps2, epsilon@, con_of(cfunc, *pts1, *pts2), len1 as int, 0, Edges.first@, Edges.second@) || (i <= len1 && (len2 == 0 || i >= len1) && ef_inv(ps1, ps2, epsilon@, con_of(cfunc, *pts1, *pts2), i as int, 0, Edges.first@, Edges.second@)),
@loop_decreases
    len1 - i
@loop 3
@invariant
    M == ps1.N == pts1_len, N == ps2.N == pts2_len, 1 <= M < 0x1_0000_0000, 1 <= N < 0x1_0000_0000, M * N < 0xFFFF_FFF0, no_of_vertices == M * N, ps1.shaped(), ps2.shaped(), len1 == ps1.dists@.len(), len2 == ps2.dists@.len(), Edges.first@.len() == Edges.second@.len(), 2 * no_of_edges <= Edges.first@.len() < 0x1000_0000_0000, lb_loc < len2,
@loop_decreases
    lb_loc
@loop 4
@invariant
    M == ps1.N == pts1_len, N == ps2.N == pts2_len, 1 <= M < 0x1_0000_0000, 1 <= N < 0x1_0000_0000, M * N < 0xFFFF_FFF0, no_of_vertices == M * N, ps1.shaped(), ps2.shaped(), len1 == ps1.dists@.len(), len2 == ps2.dists@.len(), Edges.first@.len() == Edges.second@.len(), 2 * no_of_edges <= Edges.first@.len() < 0x1000_0000_0000, lb_loc < len2, !(ps2.dists@[len2 - 1].dist@ < cur_lb@), lb_loc > 0 ==> ps2.dists@[lb_loc - 1].dist@ < cur_lb@,
@loop_decreases
    len2 - lb_loc
@loop 5
@invariant
    M == ps1.N == pts1_len, N == ps2.N == pts2_len, 1 <= M < 0x1_0000_0000, 1 <= N < 0x1_0000_0000, M * N < 0xFFFF_FFF0, no_of_vertices == M * N, ps1.shaped(), ps2.shaped(), len1 == ps1.dists@.len(), len2 == ps2.dists@.len(), Edges.first@.len() == Edges.second@.len(), 2 * no_of_edges <= Edges.first@.len() < 0x1000_0000_0000, i < len1, j <= len2, ef_inv(ps1, ps2, epsilon@, con_of(cfunc, *pts1, *pts2), i as int, j as int, Edges.first@, Edges.second@), cur_ub@ == ps1.dists@[i as int].dist@ + epsilon@,
    lb_loc <= j, lb_loc < len2, !(ps2.dists@[lb_loc as int].dist@ < ps1.dists@[i as int].dist@ - epsilon@),
@loop_decreases
    len2 - j
@at loop 1 after
    proof { lemma_ef_init(ps1, ps2, epsilon@, con_of(cfunc, *pts1, *pts2), Edges.first@, Edges.second@); lemma_pair_count(ps1.symmetric, M as int); lemma_pair_count(ps2.symmetric, N as int); }
@at loop 2 begin
    proof {
        lemma_pair_count(ps1.symmetric, M as int);
        assert(2 * N <= M * N) by(nonlinear_arith) requires M >= 2, N >= 1;
        lemma_pair_count(ps2.symmetric, N as int);
        assert(N * (N - 1) < 0x8000_0000 * 0x8000_0000) by(nonlinear_arith) requires 1 <= N < 0x8000_0000;
        assert(ps2.dists@.take(len2 as int) =~= ps2.dists@);
    }
@at before /break;/ 1
    proof { lemma_ef_rest(ps1, ps2, epsilon@, con_of(cfunc, *pts1, *pts2), i as int, Edges.first@, Edges.second@); }
@at loop 4 after
    proof { lemma_ef_start(ps1, ps2, epsilon@, con_of(cfunc, *pts1, *pts2), i as int, lb_loc as int, Edges.first@, Edges.second@); }
@at loop 5 begin
    let ghost p0 = Edges.first@; let ghost q0 = Edges.second@;
    proof {
        let u = ps1.dists@[i as int]; let v = ps2.dists@[j as int];
        assert(lb_loc < j ==> ps2.dists@[lb_loc as int].dist@ <= v.dist@);
        assert(near(u.dist@, v.dist@, epsilon@));
        lemma_vid(u.first as int, v.first as int, M as int, N as int); lemma_vid(u.second as int, v.second as int, M as int, N as int);
        lemma_vid(u.second as int, v.first as int, M as int, N as int); lemma_vid(u.first as int, v.second as int, M as int, N as int);
    }
@at loop 5 body_end
    proof {
        assert forall|x: int, y: int| #[trigger] tail4(Edges.first@, Edges.second@, p0.len() as int, x, y) == hit_at(ps1, ps2, epsilon@, con_of(cfunc, *pts1, *pts2), i as int, j as int, x, y) by {}
        lemma_ef_step(ps1, ps2, epsilon@, con_of(cfunc, *pts1, *pts2), i as int, j as int, p0, q0, Edges.first@, Edges.second@);
    }
@at loop 5 after
    proof { lemma_ef_row(ps1, ps2, epsilon@, con_of(cfunc, *pts1, *pts2), i as int, j as int, Edges.first@, Edges.second@); }
@at loop 2 after
    proof {
        if i <= len1 && (len2 == 0 || i >= len1) && ef_inv(ps1, ps2, epsilon@, con_of(cfunc, *pts1, *pts2), i as int, 0, Edges.first@, Edges.second@) { lemma_ef_rest(ps1, ps2, epsilon@, con_of(cfunc, *pts1, *pts2), i as int, Edges.first@, Edges.second@); }
        lemma_ef_end(ps1, ps2, epsilon@, con_of(cfunc, *pts1, *pts2), Edges.first@, Edges.second@);
        lemma_some(Edges.first@, Edges.second@, M * N);
    }
@at before /pg\.load_graph/
    proof {
        assert forall|x: int, y: int| #[trigger] hasp(edges.first@, edges.second@, x, y) == ((0 <= x == y <= pts1_len * pts2_len)
            || cor_of(d1, *pts1, is_d1_symmetric, pts1_len as int, d2, *pts2, is_d2_symmetric, pts2_len as int, epsilon@, con_of(cfunc, *pts1, *pts2), x, y)) by {
            lemma_good(ps1, *pts1, ps2, *pts2, epsilon@, con_of(cfunc, *pts1, *pts2), x, y);
        }
    }

@lib
// ---- the condition alone
pub open spec fn cn_at(n1: int, n2: int, c: Con, i: int, j: int, a: int, b: int, x: int, y: int) -> bool {
    0 <= i < j < n1 && 0 <= a < b < n2 && joins(i, j, a, b, true, n2, c, x, y)
}
pub open spec fn cn_to(n1: int, n2: int, c: Con, i1: int, i2: int, j1: int, j2: int, x: int, y: int) -> bool {
    exists|i: int, j: int, a: int, b: int| lex4(i, j, a, b, i1, i2, j1, j2) && #[trigger] cn_at(n1, n2, c, i, j, a, b, x, y)
}
#[verifier::opaque]
pub open spec fn cn_inv(n1: int, n2: int, c: Con, i1: int, i2: int, j1: int, j2: int, p: Seq<u64>, q: Seq<u64>) -> bool {
    p.len() == q.len() && forall|x: int, y: int| #[trigger] hasp(p, q, x, y) == ((0 <= x == y <= n1 * n2) || cn_to(n1, n2, c, i1, i2, j1, j2, x, y))
}
pub proof fn lemma_cn_init(n1: int, n2: int, c: Con, p: Seq<u64>, q: Seq<u64>)
    requires n1 >= 0, n2 >= 0, p.len() == q.len() == n1 * n2 + 1, n1 * n2 < u64::MAX, forall|k: int| 0 <= k < p.len() ==> #[trigger] p[k] == k, forall|k: int| 0 <= k < p.len() ==> #[trigger] q[k] == k,
    ensures cn_inv(n1, n2, c, 0, 0, 0, 0, p, q),
{
    reveal(cn_inv);
    assert(n1 * n2 >= 0) by(nonlinear_arith) requires n1 >= 0, n2 >= 0;
    lemma_ids(p, q, n1 * n2);
    assert forall|x: int, y: int| #[trigger] hasp(p, q, x, y) == ((0 <= x == y <= n1 * n2) || cn_to(n1, n2, c, 0, 0, 0, 0, x, y)) by {}
}
pub proof fn lemma_cn_step(n1: int, n2: int, c: Con, i1: int, i2: int, j1: int, j2: int, p: Seq<u64>, q: Seq<u64>, p2: Seq<u64>, q2: Seq<u64>)
    requires cn_inv(n1, n2, c, i1, i2, j1, j2, p, q), p2.len() == q2.len(), extends(p, p2), extends(q, q2),
        forall|x: int, y: int| #[trigger] tail4(p2, q2, p.len() as int, x, y) == cn_at(n1, n2, c, i1, i2, j1, j2, x, y),
    ensures cn_inv(n1, n2, c, i1, i2, j1, j2 + 1, p2, q2),
{
    reveal(cn_inv);
    lemma_tail4(p, q, p2, q2);
    assert forall|x: int, y: int| #[trigger] hasp(p2, q2, x, y) == ((0 <= x == y <= n1 * n2) || cn_to(n1, n2, c, i1, i2, j1, j2 + 1, x, y)) by {
        assert(hasp(p, q, x, y) == ((0 <= x == y <= n1 * n2) || cn_to(n1, n2, c, i1, i2, j1, j2, x, y)));
        if cn_to(n1, n2, c, i1, i2, j1, j2 + 1, x, y) {
            let (i, j, a, b) = choose|i: int, j: int, a: int, b: int| lex4(i, j, a, b, i1, i2, j1, j2 + 1) && #[trigger] cn_at(n1, n2, c, i, j, a, b, x, y);
            if i == i1 && j == i2 && a == j1 && b == j2 { assert(tail4(p2, q2, p.len() as int, x, y)); }
            else { assert(lex4(i, j, a, b, i1, i2, j1, j2)); assert(cn_to(n1, n2, c, i1, i2, j1, j2, x, y)); }
        }
        if cn_to(n1, n2, c, i1, i2, j1, j2, x, y) {
            let (i, j, a, b) = choose|i: int, j: int, a: int, b: int| lex4(i, j, a, b, i1, i2, j1, j2) && #[trigger] cn_at(n1, n2, c, i, j, a, b, x, y);
            assert(lex4(i, j, a, b, i1, i2, j1, j2 + 1));
        }
        if cn_at(n1, n2, c, i1, i2, j1, j2, x, y) { assert(lex4(i1, i2, j1, j2, i1, i2, j1, j2 + 1)); }
    }
}
// nothing lies between the two positions
pub proof fn lemma_cn_next(n1: int, n2: int, c: Con, i1: int, i2: int, j1: int, j2: int, k1: int, k2: int, l1: int, l2: int, p: Seq<u64>, q: Seq<u64>)
    requires cn_inv(n1, n2, c, i1, i2, j1, j2, p, q),
        forall|i: int, j: int, a: int, b: int| 0 <= i < j < n1 && 0 <= a < b < n2 ==> #[trigger] lex4(i, j, a, b, k1, k2, l1, l2) == lex4(i, j, a, b, i1, i2, j1, j2),
    ensures cn_inv(n1, n2, c, k1, k2, l1, l2, p, q),
{
    reveal(cn_inv);
    assert forall|x: int, y: int| #[trigger] hasp(p, q, x, y) == ((0 <= x == y <= n1 * n2) || cn_to(n1, n2, c, k1, k2, l1, l2, x, y)) by {
        assert(hasp(p, q, x, y) == ((0 <= x == y <= n1 * n2) || cn_to(n1, n2, c, i1, i2, j1, j2, x, y)));
        if cn_to(n1, n2, c, k1, k2, l1, l2, x, y) {
            let (i, j, a, b) = choose|i: int, j: int, a: int, b: int| lex4(i, j, a, b, k1, k2, l1, l2) && #[trigger] cn_at(n1, n2, c, i, j, a, b, x, y);
            assert(lex4(i, j, a, b, i1, i2, j1, j2));
        }
        if cn_to(n1, n2, c, i1, i2, j1, j2, x, y) {
            let (i, j, a, b) = choose|i: int, j: int, a: int, b: int| lex4(i, j, a, b, i1, i2, j1, j2) && #[trigger] cn_at(n1, n2, c, i, j, a, b, x, y);
            assert(lex4(i, j, a, b, k1, k2, l1, l2));
        }
    }
}
pub open spec fn cor_con(n1: int, n2: int, c: Con, x: int, y: int) -> bool {
    let (i, a, j, b) = (dec1(x, n2) - 1, dec2(x, n2) - 1, dec1(y, n2) - 1, dec2(y, n2) - 1);
    1 <= x <= n1 * n2 && 1 <= y <= n1 * n2 && i != j && a != b && c(i, j, a, b)
}
pub proof fn lemma_cn_cor(n1: int, n2: int, c: Con, i1: int, i2: int, j1: int, j2: int, x: int, y: int)
    requires n1 >= 0, n2 >= 0, i1 >= n1, ordless(c, n1, n2),
    ensures cn_to(n1, n2, c, i1, i2, j1, j2, x, y) == cor_con(n1, n2, c, x, y),
{
    if cor_con(n1, n2, c, x, y) {
        assert(n2 >= 1) by { assert(n2 == 0 ==> n1 * n2 == 0) by(nonlinear_arith); }
        lemma_dec(x, n1, n2); lemma_dec(y, n1, n2);
        let (i, a, j, b) = (dec1(x, n2) - 1, dec2(x, n2) - 1, dec1(y, n2) - 1, dec2(y, n2) - 1);
        assert(c(j, i, b, a));
        assert(x == vid(i, a, n2) && y == vid(j, b, n2));
        let (u, v) = if i < j { (i, j) } else { (j, i) };
        let (s, t) = if a < b { (a, b) } else { (b, a) };
        assert(cn_at(n1, n2, c, u, v, s, t, x, y));
        assert(lex4(u, v, s, t, i1, i2, j1, j2));
    }
    if cn_to(n1, n2, c, i1, i2, j1, j2, x, y) {
        let (i, j, a, b) = choose|i: int, j: int, a: int, b: int| lex4(i, j, a, b, i1, i2, j1, j2) && #[trigger] cn_at(n1, n2, c, i, j, a, b, x, y);
        lemma_vid(i, a, n1, n2); lemma_vid(j, b, n1, n2); lemma_vid(j, a, n1, n2); lemma_vid(i, b, n1, n2);
        assert(c(i, j, a, b) ==> c(j, i, b, a));
        assert(c(i, j, b, a) ==> c(j, i, a, b));
    }
}
pub proof fn lemma_cn_end(n1: int, n2: int, c: Con, i1: int, i2: int, j1: int, j2: int, p: Seq<u64>, q: Seq<u64>)
    requires cn_inv(n1, n2, c, i1, i2, j1, j2, p, q), n1 >= 0, n2 >= 0, i1 >= n1, ordless(c, n1, n2), n1 * n2 < 0xFFFF_FFF0, p.len() < 0x1000_0000_0000,
    ensures edges_ok(p, q, n1 * n2), forall|x: int, y: int| #[trigger] hasp(p, q, x, y) == ((0 <= x == y <= n1 * n2) || cor_con(n1, n2, c, x, y)),
{
    reveal(cn_inv);
    let n = n1 * n2;
    assert forall|x: int, y: int| #[trigger] hasp(p, q, x, y) == ((0 <= x == y <= n) || cor_con(n1, n2, c, x, y)) by { lemma_cn_cor(n1, n2, c, i1, i2, j1, j2, x, y); }
    assert forall|x: int, y: int| #[trigger] cor_con(n1, n2, c, x, y) implies cor_con(n1, n2, c, y, x) by {
        assert(n2 >= 1) by { assert(n2 == 0 ==> n1 * n2 == 0) by(nonlinear_arith); }
        lemma_dec(x, n1, n2); lemma_dec(y, n1, n2);
    }
    assert(n >= 0) by(nonlinear_arith) requires n == n1 * n2, n1 >= 0, n2 >= 0;
    assert forall|i: int| 0 <= i < p.len() implies #[trigger] p[i] <= n && q[i] <= n by {
        assert(in2(p, q, 0, p.len() as int, p[i], q[i]));
        assert(hasp(p, q, p[i] as int, q[i] as int));
    }
    assert forall|x: int| 0 <= x <= n implies #[trigger] hasp(p, q, x, x) by {}
    assert forall|x: int, y: int| #[trigger] hasp(p, q, x, y) implies hasp(p, q, y, x) by { assert(cor_con(n1, n2, c, x, y) ==> cor_con(n1, n2, c, y, x)); }
    assert forall|y: int| #[trigger] hasp(p, q, 0, y) implies y == 0 by {}
}

@fn build_edges_condition_only(pg, pts1, pts1_len, pts2, pts2_len, cfunc)
@locals u64 no_of_vertices, u64 no_of_edges, u64 i1, u64 i2, u64 j1, u64 j2, u64 v1, u64 v2
@requires
    pts1_len < 0x1_0000_0000, pts2_len < 0x1_0000_0000, pts1_len * pts2_len < 0xFFFF_FFF0, ordless(con_of(cfunc, *pts1, *pts2), pts1_len as int, pts2_len as int),
@ensures
    r is Err ==> *final(pg) == *old(pg),
    // it fails only where what was given does
    r is Err ==> throws_c(cfunc, *pts1, pts1_len as int, *pts2, pts2_len as int),
    r is Ok ==> r == Ok::<bool, CmError>(true) && final(pg).pwf() && final(pg).G@.len() == 1 && final(pg).nvert == pts1_len * pts2_len && !final(pg).finished_all && final(pg).current_vertex == 0
        && final(pg).nedges == edges_of(final(pg).g().sh()).len(),
    r is Ok ==> forall|x: int, y: int| #[trigger] final(pg).g().sh().adj(x, y) == ((0 <= x == y <= pts1_len * pts2_len) || cor_con(pts1_len as int, pts2_len as int, con_of(cfunc, *pts1, *pts2), x, y)),
@loop 1
@invariant
    no_of_vertices < 0xFFFF_FFF0, edges.first@.len() == edges.second@.len() == (if sized { no_of_vertices + 1 } else { v1 as int }), v1 <= no_of_vertices + 1,
    forall|k: int| 0 <= k < v1 ==> #[trigger] edges.first@[k] == k, forall|k: int| 0 <= k < v1 ==> #[trigger] edges.second@[k] == k,
@loop_decreases
    no_of_vertices + 1 - v1
@at loop 1 before
    let ghost sized = edges.first@.len() > 0;
    #[verifier::loop_isolation(false)]
@loop 2
@invariant
    pts1_len < 0x1_0000_0000, pts2_len < 0x1_0000_0000, pts1_len * pts2_len < 0xFFFF_FFF0, edges.first@.len() == edges.second@.len(), 2 * no_of_edges <= edges.first@.len() < 0x1000_0000_0000, i1 <= pts1_len, *pg == *old(pg), cn_inv(pts1_len as int, pts2_len as int, con_of(cfunc, *pts1, *pts2), i1 as int, 0, 0, 0, edges.first@, edges.second@),
@loop_decreases
    pts1_len - i1
@loop 3
@invariant
    pts1_len < 0x1_0000_0000, pts2_len < 0x1_0000_0000, pts1_len * pts2_len < 0xFFFF_FFF0, edges.first@.len() == edges.second@.len(), 2 * no_of_edges <= edges.first@.len() < 0x1000_0000_0000, i1 < pts1_len, i1 < i2 <= pts1_len, *pg == *old(pg), cn_inv(pts1_len as int, pts2_len as int, con_of(cfunc, *pts1, *pts2), i1 as int, i2 as int, 0, 0, edges.first@, edges.second@),
@loop_decreases
    pts1_len - i2
@loop 4
@invariant
    pts1_len < 0x1_0000_0000, pts2_len < 0x1_0000_0000, pts1_len * pts2_len < 0xFFFF_FFF0, edges.first@.len() == edges.second@.len(), 2 * no_of_edges <= edges.first@.len() < 0x1000_0000_0000, i1 < i2 < pts1_len, j1 <= pts2_len, *pg == *old(pg), cn_inv(pts1_len as int, pts2_len as int, con_of(cfunc, *pts1, *pts2), i1 as int, i2 as int, j1 as int, 0, edges.first@, edges.second@),
@loop_decreases
    pts2_len - j1
@loop 5
@invariant
    pts1_len < 0x1_0000_0000, pts2_len < 0x1_0000_0000, pts1_len * pts2_len < 0xFFFF_FFF0, edges.first@.len() == edges.second@.len(), 2 * no_of_edges <= edges.first@.len() < 0x1000_0000_0000, i1 < i2 < pts1_len, j1 < j2 <= pts2_len, *pg == *old(pg), cn_inv(pts1_len as int, pts2_len as int, con_of(cfunc, *pts1, *pts2), i1 as int, i2 as int, j1 as int, j2 as int, edges.first@, edges.second@),
@loop_decreases
    pts2_len - j2
@at loop 1 after
    proof { lemma_cn_init(pts1_len as int, pts2_len as int, con_of(cfunc, *pts1, *pts2), edges.first@, edges.second@); }
@at loop 2 begin
    proof { lemma_cn_next(pts1_len as int, pts2_len as int, con_of(cfunc, *pts1, *pts2), i1 as int, 0, 0, 0, i1 as int, i1 + 1, 0, 0, edges.first@, edges.second@); }
@at loop 4 begin
    proof { lemma_cn_next(pts1_len as int, pts2_len as int, con_of(cfunc, *pts1, *pts2), i1 as int, i2 as int, j1 as int, 0, i1 as int, i2 as int, j1 as int, j1 + 1, edges.first@, edges.second@); }
@at loop 5 begin
    let ghost p0 = edges.first@; let ghost q0 = edges.second@;
    proof {
        lemma_vid(i1 as int, j1 as int, pts1_len as int, pts2_len as int); lemma_vid(i2 as int, j2 as int, pts1_len as int, pts2_len as int);
        lemma_vid(i2 as int, j1 as int, pts1_len as int, pts2_len as int); lemma_vid(i1 as int, j2 as int, pts1_len as int, pts2_len as int);
    }
@at loop 5 body_end
    proof {
        assert forall|x: int, y: int| #[trigger] tail4(edges.first@, edges.second@, p0.len() as int, x, y) == cn_at(pts1_len as int, pts2_len as int, con_of(cfunc, *pts1, *pts2), i1 as int, i2 as int, j1 as int, j2 as int, x, y) by {}
        lemma_cn_step(pts1_len as int, pts2_len as int, con_of(cfunc, *pts1, *pts2), i1 as int, i2 as int, j1 as int, j2 as int, p0, q0, edges.first@, edges.second@);
    }
@at loop 5 after
    proof { lemma_cn_next(pts1_len as int, pts2_len as int, con_of(cfunc, *pts1, *pts2), i1 as int, i2 as int, j1 as int, j2 as int, i1 as int, i2 as int, j1 + 1, 0, edges.first@, edges.second@); }
@at loop 4 after
    proof { lemma_cn_next(pts1_len as int, pts2_len as int, con_of(cfunc, *pts1, *pts2), i1 as int, i2 as int, j1 as int, 0, i1 as int, i2 + 1, 0, 0, edges.first@, edges.second@); }
@at loop 3 after
    proof { lemma_cn_next(pts1_len as int, pts2_len as int, con_of(cfunc, *pts1, *pts2), i1 as int, i2 as int, 0, 0, i1 + 1, 0, 0, 0, edges.first@, edges.second@); }
@at loop 2 after
    proof { lemma_cn_end(pts1_len as int, pts2_len as int, con_of(cfunc, *pts1, *pts2), i1 as int, 0, 0, 0, edges.first@, edges.second@); lemma_some(edges.first@, edges.second@, pts1_len * pts2_len); }

@lib
// ---- cliques of a correspondence graph are one-to-one
pub proof fn lemma_cor_apart(s: Sh, m1: Metric, l1: PyObj, sym1: bool, n1: int, m2: Metric, l2: PyObj, sym2: bool, n2: int, e: real, c: Con)
    requires s.n() == n1 * n2 + 1, n1 >= 0, n2 >= 0,
        (forall|x: int, y: int| #[trigger] s.adj(x, y) == ((0 <= x == y <= n1 * n2) || cor_of(m1, l1, sym1, n1, m2, l2, sym2, n2, e, c, x, y)))
        || (forall|x: int, y: int| #[trigger] s.adj(x, y) == ((0 <= x == y <= n1 * n2) || cor_con(n1, n2, c, x, y))),
    ensures apart2(s, n1, n2),
{}
