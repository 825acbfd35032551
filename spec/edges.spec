@lib
pub open spec fn hasp(a: Seq<u64>, b: Seq<u64>, x: int, y: int) -> bool {
    0 <= x <= u64::MAX && 0 <= y <= u64::MAX && in2(a, b, 0, a.len() as int, x as u64, y as u64)
}
// the edge lists a graph may be built from: both directions of every edge, (v, v) for every vertex, 0 alone
pub open spec fn edges_ok(a: Seq<u64>, b: Seq<u64>, n: int) -> bool {
    &&& a.len() == b.len() && a.len() < 0x1000_0000_0000
    &&& forall|i: int| 0 <= i < a.len() ==> #[trigger] a[i] <= n && b[i] <= n
    &&& forall|x: int| 0 <= x <= n ==> #[trigger] hasp(a, b, x, x)
    &&& forall|x: int, y: int| #[trigger] hasp(a, b, x, y) ==> hasp(a, b, y, x)
    &&& forall|y: int| #[trigger] hasp(a, b, 0, y) ==> y == 0
}
pub proof fn lemma_hasp_push(p: Seq<u64>, q: Seq<u64>, x: u64, y: u64)
    requires p.len() == q.len(),
    ensures hasp(p.push(x), q.push(y), x as int, y as int),
        forall|a: int, b: int| #[trigger] hasp(p, q, a, b) ==> hasp(p.push(x), q.push(y), a, b),
{
    let p1 = p.push(x); let q1 = q.push(y);
    assert(p1[p.len() as int] == x && q1[p.len() as int] == y);
    assert(in2(p1, q1, 0, p1.len() as int, x, y));
    assert forall|a: int, b: int| #[trigger] hasp(p, q, a, b) implies hasp(p1, q1, a, b) by {
        let i = choose|i: int| 0 <= i < p.len() && #[trigger] p[i] == a as u64 && q[i] == b as u64;
        assert(p1[i] == p[i] && q1[i] == q[i]);
    }
}
// vertex (i-1)*n2 + j of a correspondence graph stands for the pair (i-1, j-1)
pub open spec fn decoded(c: Seq<u64>, n2: int, a: Seq<u64>, b: Seq<u64>) -> bool {
    &&& a.len() == c.len() && b.len() == c.len()
    &&& forall|i: int| 0 <= i < c.len() ==> #[trigger] a[i] == (c[i] - 1) / n2 && b[i] == (c[i] - 1) % n2
}
// the edges of vertices before i, and those in the first k entries of the list of i, each from its smaller end
pub open spec fn epr(s: Sh, i: int, k: int) -> Set<(int, int)>
    decreases i, k,
{
    if i < 0 { Set::empty() }
    else if k > 0 && i < s.n() && k > s.v[i].spos + 1 { epr(s, i, k - 1).insert((i, s.nb(i, k - 1))) }
    else if i > 0 { epr(s, i - 1, s.v[i - 1].N) }
    else { Set::empty() }
}
#[verifier::opaque]
pub open spec fn edges_of(s: Sh) -> Set<(int, int)> { epr(s, s.n(), 0) }
pub open spec fn in_list(s: Sh, i: int, k: int, b: int) -> bool { exists|j: int| s.v[i].spos < j < k && #[trigger] s.nb(i, j) == b }
pub proof fn lemma_epr(s: Sh, i: int, k: int)
    requires s.ok(), 0 <= i <= s.n(), 0 <= k, i < s.n() ==> k <= s.v[i].N, forall|u: int| 0 <= u < s.n() ==> (#[trigger] s.v[u]).N <= s.n(),
    ensures
        forall|a: int, b: int| #[trigger] epr(s, i, k).contains((a, b)) == ((0 <= a < i && a < b && s.adj(a, b)) || (a == i && i < s.n() && in_list(s, i, k, b))),
        epr(s, i, k).len() <= i * 0x1_0000_0000 + k,
    decreases i, k,
{
    if i < s.n() { assert(s.vok(i)); }
    if k > 0 && i < s.n() && k > s.v[i].spos + 1 {
        lemma_epr(s, i, k - 1);
        assert forall|b: int| #[trigger] in_list(s, i, k, b) == (in_list(s, i, k - 1, b) || b == s.nb(i, k - 1)) by {
            if in_list(s, i, k, b) { let j = choose|j: int| s.v[i].spos < j < k && #[trigger] s.nb(i, j) == b; if j < k - 1 { assert(in_list(s, i, k - 1, b)); } }
            if in_list(s, i, k - 1, b) { let j = choose|j: int| s.v[i].spos < j < k - 1 && #[trigger] s.nb(i, j) == b; }
        }
    } else if i > 0 {
        let u = i - 1; let w = s.v[u].N;
        assert(s.vok(u));
        lemma_epr(s, u, w);
        assert forall|b: int| #[trigger] in_list(s, u, w, b) == (u < b && s.adj(u, b)) by {
            if in_list(s, u, w, b) { let j = choose|j: int| s.v[u].spos < j < w && #[trigger] s.nb(u, j) == b; lemma_side(s, u, j); assert(s.adj(u, b)); }
            if u < b && s.adj(u, b) { let j = choose|j: int| 0 <= j < s.v[u].N && #[trigger] s.nb(u, j) == b; lemma_side(s, u, j); assert(s.nb(u, j) == b); }
        }
        assert(u * 0x1_0000_0000 + w <= i * 0x1_0000_0000);
    }
}
// no list has more entries than there are vertices
pub proof fn lemma_degs(s: Sh)
    requires s.ok(),
    ensures forall|u: int| 0 <= u < s.n() ==> (#[trigger] s.v[u]).N <= s.n(),
{
    assert forall|u: int| 0 <= u < s.n() implies (#[trigger] s.v[u]).N <= s.n() by { assert(s.vok(u)); lemma_nb_up(s, u, s.v[u].N - 1); }
}
pub proof fn lemma_nb_up(s: Sh, u: int, k: int)
    requires s.vok(u), 0 <= k < s.v[u].N,
    ensures s.nb(u, k) >= k,
    decreases k,
{ if k > 0 { lemma_nb_up(s, u, k - 1); assert(s.nb(u, k - 1) < s.nb(u, k)); } }
// the next edge to be counted is a new one
pub proof fn lemma_epr_step(s: Sh, i: int, k: int)
    requires s.ok(), 0 <= i < s.n(), s.v[i].spos < k < s.v[i].N,
    ensures epr(s, i, k + 1).len() == epr(s, i, k).len() + 1, epr(s, i, k).len() < u64::MAX,
        epr(s, i, k + 1) == epr(s, i, k).insert((i, s.nb(i, k))), !epr(s, i, k).contains((i, s.nb(i, k))),
{
    lemma_degs(s);
    assert(s.vok(i));
    assert(s.nb(i, s.v[i].spos) < s.nb(i, k));
    lemma_epr(s, i, k);
    assert(!in_list(s, i, k, s.nb(i, k)));
    assert(s.v[i].N <= s.n());
    assert(i * 0x1_0000_0000 + k < u64::MAX);
}

// a graph has no more edges than the list it was built from has entries
pub open spec fn pairs(a: Seq<u64>, b: Seq<u64>, k: int) -> Set<(int, int)> decreases k { if k <= 0 { Set::empty() } else { pairs(a, b, k - 1).insert((a[k - 1] as int, b[k - 1] as int)) } }
pub proof fn lemma_pairs(a: Seq<u64>, b: Seq<u64>, k: int, i: int)
    requires 0 <= i < k,
    ensures pairs(a, b, k).contains((a[i] as int, b[i] as int)),
    decreases k,
{
    if i < k - 1 { lemma_pairs(a, b, k - 1, i); }
}
pub proof fn lemma_pairs_len(a: Seq<u64>, b: Seq<u64>, k: int)
    requires 0 <= k,
    ensures pairs(a, b, k).len() <= k,
    decreases k,
{
    if k > 0 { lemma_pairs_len(a, b, k - 1); }
}
pub proof fn lemma_few(s: Sh, a: Seq<u64>, b: Seq<u64>)
    requires s.ok(), a.len() == b.len(), forall|x: int, y: int| #[trigger] s.adj(x, y) == hasp(a, b, x, y),
    ensures edges_of(s).len() <= a.len(),
{
    reveal(edges_of);
    let n = a.len() as int;
    lemma_degs(s); lemma_epr(s, s.n(), 0); lemma_pairs_len(a, b, n);
    assert forall|p: (int, int)| edges_of(s).contains(p) implies pairs(a, b, n).contains(p) by {
        let (x, y) = p;
        assert(edges_of(s).contains((x, y)));
        assert(s.adj(x, y) && hasp(a, b, x, y));
        let k = choose|k: int| 0 <= k < n && #[trigger] a[k] == x as u64 && b[k] == y as u64;
        lemma_pairs(a, b, n, k);
    }
    lemma_len_subset(edges_of(s), pairs(a, b, n));
}
pub proof fn lemma_hasp_add(p: Seq<u64>, q: Seq<u64>, x: u64, y: u64)
    requires p.len() == q.len(),
    ensures forall|a: int, b: int| #[trigger] hasp(p.push(x), q.push(y), a, b) == (hasp(p, q, a, b) || (a == x && b == y)),
{
    lemma_hasp_push(p, q, x, y);
    let p1 = p.push(x); let q1 = q.push(y);
    assert forall|a: int, b: int| #[trigger] hasp(p1, q1, a, b) implies hasp(p, q, a, b) || (a == x && b == y) by {
        let i = choose|i: int| 0 <= i < p1.len() && #[trigger] p1[i] == a as u64 && q1[i] == b as u64;
        if i < p.len() { assert(p[i] == a as u64 && q[i] == b as u64); }
    }
}
pub proof fn lemma_push2(p: Seq<u64>, q: Seq<u64>, a: u64, b: u64)
    requires p.len() == q.len(),
    ensures forall|x: int, y: int| #[trigger] hasp(p.push(a).push(b), q.push(b).push(a), x, y) == (hasp(p, q, x, y) || (x == a && y == b) || (x == b && y == a)),
{
    lemma_hasp_add(p, q, a, b);
    lemma_hasp_add(p.push(a), q.push(b), b, a);
}
// ---- edge lists
pub open spec fn row_ok(e: NdArray<u64>, n: int, k: int) -> bool { 1 <= e.el(k, 0) <= n && 1 <= e.el(k, 1) <= n }
pub open spec fn el_ok(e: NdArray<u64>, n: int) -> bool { e.dims() == 2 && e.n1() == 2 && forall|k: int| 0 <= k < e.n0() ==> #[trigger] row_ok(e, n, k) }
pub open spec fn row_is(e: NdArray<u64>, k: int, x: int, y: int) -> bool { (e.el(k, 0) == x && e.el(k, 1) == y) || (e.el(k, 0) == y && e.el(k, 1) == x) }
pub open spec fn el_to(e: NdArray<u64>, k: int, x: int, y: int) -> bool { exists|r: int| 0 <= r < k && #[trigger] row_is(e, r, x, y) }
pub proof fn lemma_el_step(e: NdArray<u64>, k: int, p: Seq<u64>, q: Seq<u64>, n: int)
    requires k >= 0, p.len() == q.len(), forall|x: int, y: int| #[trigger] hasp(p, q, x, y) == ((0 <= x == y <= n) || el_to(e, k, x, y)),
    ensures ({ let a = e.el(k, 0); let b = e.el(k, 1);
        &&& forall|x: int, y: int| #[trigger] hasp(p.push(a).push(b), q.push(b).push(a), x, y) == ((0 <= x == y <= n) || el_to(e, k + 1, x, y))
        &&& forall|x: int, y: int| #[trigger] hasp(p.push(b).push(a), q.push(a).push(b), x, y) == ((0 <= x == y <= n) || el_to(e, k + 1, x, y)) }),
{
    let a = e.el(k, 0); let b = e.el(k, 1);
    lemma_push2(p, q, a, b); lemma_push2(p, q, b, a);
    assert forall|x: int, y: int| #[trigger] el_to(e, k + 1, x, y) == (el_to(e, k, x, y) || row_is(e, k, x, y)) by {
        if el_to(e, k + 1, x, y) { let r = choose|r: int| 0 <= r < k + 1 && #[trigger] row_is(e, r, x, y); if r < k { assert(el_to(e, k, x, y)); } }
        if el_to(e, k, x, y) { let r = choose|r: int| 0 <= r < k && #[trigger] row_is(e, r, x, y); assert(row_is(e, r, x, y)); }
        if row_is(e, k, x, y) { assert(el_to(e, k + 1, x, y)); }
    }
}
pub proof fn lemma_el_end(e: NdArray<u64>, p: Seq<u64>, q: Seq<u64>, n: int)
    requires p.len() == q.len(), p.len() < 0x1000_0000_0000, 0 <= n < u64::MAX, e.n0() >= 0, el_ok(e, n), forall|k: int| 0 <= k < p.len() ==> #[trigger] p[k] <= n && q[k] <= n,
        forall|x: int, y: int| #[trigger] hasp(p, q, x, y) == ((0 <= x == y <= n) || el_to(e, e.n0(), x, y)),
    ensures edges_ok(p, q, n),
{
    assert forall|x: int, y: int| #[trigger] hasp(p, q, x, y) implies hasp(p, q, y, x) by {
        if el_to(e, e.n0(), x, y) { let r = choose|r: int| 0 <= r < e.n0() && #[trigger] row_is(e, r, x, y); assert(row_is(e, r, y, x)); assert(el_to(e, e.n0(), y, x)); }
    }
    assert forall|y: int| #[trigger] hasp(p, q, 0, y) implies y == 0 by {
        if el_to(e, e.n0(), 0, y) { let r = choose|r: int| 0 <= r < e.n0() && #[trigger] row_is(e, r, 0, y); assert(row_ok(e, n, r)); }
    }
}
pub proof fn lemma_ids(p: Seq<u64>, q: Seq<u64>, n: int)
    requires p.len() == q.len() == n + 1, n >= 0, n < u64::MAX, forall|k: int| 0 <= k <= n ==> #[trigger] p[k] == k, forall|k: int| 0 <= k <= n ==> #[trigger] q[k] == k,
    ensures forall|x: int, y: int| #[trigger] hasp(p, q, x, y) == (0 <= x == y <= n),
{
    assert forall|x: int, y: int| #[trigger] hasp(p, q, x, y) == (0 <= x == y <= n) by {
        if 0 <= x == y <= n { assert(p[x] == x && q[x] == x); }
    }
}
// ---- adjacency matrices
pub open spec fn am_rel(a: NdArray<bool>, x: int, y: int) -> bool { 1 <= x <= a.n0() && 1 <= y <= a.n0() && (a.el(x - 1, y - 1) || a.el(y - 1, x - 1)) }
pub open spec fn before2(i: int, j: int, x: int, y: int) -> bool { x < i || (x == i && y < j) }
pub open spec fn am_cell(a: NdArray<bool>, i: int, j: int, x: int, y: int) -> bool {
    1 <= x <= a.n0() && 1 <= y <= a.n0() && before2(i, j, x - 1, y - 1) && (a.el(x - 1, y - 1) || x == y)
}
pub open spec fn am_to(a: NdArray<bool>, i: int, j: int, x: int, y: int) -> bool { (x == 0 && y == 0) || am_cell(a, i, j, x, y) || am_cell(a, i, j, y, x) }
pub open spec fn am_inv(a: NdArray<bool>, i: int, j: int, p: Seq<u64>, q: Seq<u64>) -> bool {
    &&& 1 <= p.len() == q.len() < 0x1000_0000_0000
    &&& forall|k: int| 0 <= k < p.len() ==> #[trigger] p[k] <= a.n0() && q[k] <= a.n0()
    &&& forall|x: int, y: int| #[trigger] hasp(p, q, x, y) == am_to(a, i, j, x, y)
}
pub proof fn lemma_am_step(a: NdArray<bool>, i: int, j: int, p: Seq<u64>, q: Seq<u64>, p2: Seq<u64>, q2: Seq<u64>)
    requires am_inv(a, i, j, p, q), 0 <= i < a.n0(), 0 <= j < a.n0(), a.n0() < 0x1_0000_0000,
        if a.el(i, j) || i == j {
            (p2 == p.push((i + 1) as u64).push((j + 1) as u64) && q2 == q.push((j + 1) as u64).push((i + 1) as u64)
                || p2 == p.push((j + 1) as u64).push((i + 1) as u64) && q2 == q.push((i + 1) as u64).push((j + 1) as u64)) && p2.len() < 0x1000_0000_0000
        } else { p2 == p && q2 == q },
    ensures am_inv(a, i, j + 1, p2, q2),
{
    if a.el(i, j) || i == j { lemma_push2(p, q, (i + 1) as u64, (j + 1) as u64); lemma_push2(p, q, (j + 1) as u64, (i + 1) as u64); }
    assert forall|x: int, y: int| #[trigger] hasp(p2, q2, x, y) == am_to(a, i, j + 1, x, y) by { assert(hasp(p, q, x, y) == am_to(a, i, j, x, y)); }
}
pub proof fn lemma_am_row(a: NdArray<bool>, i: int, p: Seq<u64>, q: Seq<u64>)
    requires am_inv(a, i, a.n0(), p, q),
    ensures am_inv(a, i + 1, 0, p, q),
{
    assert forall|x: int, y: int| #[trigger] hasp(p, q, x, y) == am_to(a, i + 1, 0, x, y) by { assert(am_to(a, i, a.n0(), x, y) == am_to(a, i + 1, 0, x, y)); }
}
pub proof fn lemma_am_end(a: NdArray<bool>, p: Seq<u64>, q: Seq<u64>)
    requires am_inv(a, a.n0(), 0, p, q), a.n0() >= 0,
    ensures edges_ok(p, q, a.n0()), forall|x: int, y: int| #[trigger] hasp(p, q, x, y) == ((0 <= x == y <= a.n0()) || am_rel(a, x, y)),
{
    assert forall|x: int, y: int| #[trigger] hasp(p, q, x, y) == ((0 <= x == y <= a.n0()) || am_rel(a, x, y)) by { assert(hasp(p, q, x, y) == am_to(a, a.n0(), 0, x, y)); }
    assert forall|x: int, y: int| #[trigger] hasp(p, q, x, y) implies hasp(p, q, y, x) by { assert(hasp(p, q, y, x) == am_to(a, a.n0(), 0, y, x)); assert(hasp(p, q, x, y) == am_to(a, a.n0(), 0, x, y)); }
}
pub proof fn lemma_am_start(a: NdArray<bool>, p: Seq<u64>, q: Seq<u64>)
    requires p == Seq::<u64>::empty().push(0), q == Seq::<u64>::empty().push(0), a.n0() >= 0,
    ensures am_inv(a, 0, 0, p, q),
{
    lemma_hasp_add(Seq::empty(), Seq::empty(), 0, 0);
    assert forall|x: int, y: int| #[trigger] hasp(p, q, x, y) == am_to(a, 0, 0, x, y) by {}
}
// ---- adjacency lists
pub open spec fn total(e: Seq<StdSet>, k: int) -> int decreases k { if k <= 0 { 0 } else { total(e, k - 1) + e[k - 1]@.len() } }
pub open spec fn al_has(e: Seq<StdSet>, x: int, y: int) -> bool { 0 <= x < e.len() && 0 <= y <= u64::MAX && e[x]@.contains(y as u64) }
pub open spec fn al_one(e: Seq<StdSet>, n: int, x: int, y: int) -> bool { 1 <= y <= n && y != x && al_has(e, y, x) }
pub open spec fn al_ok(e: Seq<StdSet>, n: int, m: int) -> bool {
    &&& e.len() == n + 1 && e[0]@.len() == 0 && total(e, n + 1) / 2 == m
    &&& forall|x: int, y: int| #[trigger] al_has(e, x, y) ==> al_one(e, n, x, y)
}
pub open spec fn inlk(l: Seq<u64>, k: int, y: int) -> bool { exists|m: int| 0 <= m < k && #[trigger] l[m] == y }
// what is known after the sets before i and the first k elements of set i
pub open spec fn al_inv(e: Seq<StdSet>, n: int, i: int, h: bool, l: Seq<u64>, k: int, p: Seq<u64>, q: Seq<u64>) -> bool {
    &&& p.len() == q.len() < 0x1000_0000_0000
    &&& forall|m: int| 0 <= m < p.len() ==> #[trigger] p[m] <= n && q[m] <= n
    &&& forall|x: int, y: int| 0 <= x < i && #[trigger] al_has(e, x, y) ==> al_one(e, n, x, y)
    &&& forall|m: int| 0 <= m < k ==> al_one(e, n, i, #[trigger] l[m] as int)
    &&& forall|x: int, y: int| #[trigger] hasp(p, q, x, y) == ((0 <= x == y && (x < i || h && x == i)) || (x < i && al_has(e, x, y)) || (x == i && inlk(l, k, y)))
}
pub proof fn lemma_al_open(e: Seq<StdSet>, n: int, i: int, l: Seq<u64>, p: Seq<u64>, q: Seq<u64>)
    requires al_inv(e, n, i, false, Seq::empty(), 0, p, q), 0 <= i <= n < u64::MAX, p.len() + 1 < 0x1000_0000_0000,
    ensures al_inv(e, n, i, true, l, 0, p.push(i as u64), q.push(i as u64)),
{
    lemma_hasp_add(p, q, i as u64, i as u64);
    let p2 = p.push(i as u64); let q2 = q.push(i as u64);
    assert forall|x: int, y: int| #[trigger] hasp(p2, q2, x, y) == ((0 <= x == y && (x < i || x == i)) || (x < i && al_has(e, x, y)) || (x == i && inlk(l, 0, y))) by { assert(!inlk(Seq::empty(), 0, y)); assert(!inlk(l, 0, y)); assert(hasp(p, q, x, y) || !hasp(p, q, x, y)); }
}
pub proof fn lemma_al_step(e: Seq<StdSet>, n: int, i: int, l: Seq<u64>, k: int, p: Seq<u64>, q: Seq<u64>)
    requires al_inv(e, n, i, true, l, k, p, q), 0 <= i <= n < u64::MAX, 0 <= k < l.len(), al_one(e, n, i, l[k] as int), p.len() + 1 < 0x1000_0000_0000,
    ensures al_inv(e, n, i, true, l, k + 1, p.push(i as u64), q.push(l[k])),
{
    lemma_hasp_add(p, q, i as u64, l[k]);
    let p2 = p.push(i as u64); let q2 = q.push(l[k]);
    assert forall|x: int, y: int| #[trigger] hasp(p2, q2, x, y) == ((0 <= x == y && (x < i || x == i)) || (x < i && al_has(e, x, y)) || (x == i && inlk(l, k + 1, y))) by {
        assert(inlk(l, k + 1, y) == (inlk(l, k, y) || l[k] == y)) by {
            if inlk(l, k + 1, y) { let m = choose|m: int| 0 <= m < k + 1 && #[trigger] l[m] == y; if m < k { assert(inlk(l, k, y)); } }
            if inlk(l, k, y) { let m = choose|m: int| 0 <= m < k && #[trigger] l[m] == y; assert(l[m] == y); }
        }
        assert(hasp(p, q, x, y) || !hasp(p, q, x, y));
    }
}
pub proof fn lemma_al_close(e: Seq<StdSet>, n: int, i: int, l: Seq<u64>, p: Seq<u64>, q: Seq<u64>)
    requires al_inv(e, n, i, true, l, l.len() as int, p, q), 0 <= i <= n < u64::MAX, i < e.len(), lists(l, e[i]@),
    ensures al_inv(e, n, i + 1, false, Seq::empty(), 0, p, q), total(e, i + 1) == total(e, i) + l.len(),
{
    assert forall|y: int| #[trigger] al_has(e, i, y) == inlk(l, l.len() as int, y) by {
        if al_has(e, i, y) { let m = choose|m: int| 0 <= m < l.len() && l[m] == y as u64; assert(l[m] == y); }
        if inlk(l, l.len() as int, y) { let m = choose|m: int| 0 <= m < l.len() && #[trigger] l[m] == y; assert(e[i]@.contains(l[m])); }
    }
    assert forall|x: int, y: int| 0 <= x < i + 1 && #[trigger] al_has(e, x, y) implies al_one(e, n, x, y) by {
        if x == i { assert(inlk(l, l.len() as int, y)); let m = choose|m: int| 0 <= m < l.len() && #[trigger] l[m] == y; assert(al_one(e, n, i, l[m] as int)); }
    }
    assert forall|x: int, y: int| #[trigger] hasp(p, q, x, y) == ((0 <= x == y && x < i + 1) || (x < i + 1 && al_has(e, x, y)) || (x == i + 1 && inlk(Seq::empty(), 0, y))) by {
        assert(!inlk(Seq::empty(), 0, y)); assert(al_has(e, i, y) == inlk(l, l.len() as int, y));
    }
}
pub proof fn lemma_al_end(e: Seq<StdSet>, n: int, p: Seq<u64>, q: Seq<u64>)
    requires al_inv(e, n, n + 1, false, Seq::empty(), 0, p, q), 0 <= n < u64::MAX, e.len() == n + 1, e[0]@.len() == 0,
    ensures edges_ok(p, q, n), forall|x: int, y: int| #[trigger] hasp(p, q, x, y) == ((0 <= x == y <= n) || al_has(e, x, y)),
        forall|x: int, y: int| #[trigger] al_has(e, x, y) ==> al_one(e, n, x, y),
{
    assert forall|x: int, y: int| #[trigger] hasp(p, q, x, y) == ((0 <= x == y <= n) || al_has(e, x, y)) by { assert(!inlk(Seq::empty(), 0, y)); }
    assert forall|x: int, y: int| #[trigger] hasp(p, q, x, y) implies hasp(p, q, y, x) by { if al_has(e, x, y) { assert(al_one(e, n, x, y)); assert(al_has(e, y, x)); } assert(hasp(p, q, y, x) == ((0 <= x == y <= n) || al_has(e, y, x))); }
    assert(e[0]@ =~= Set::empty());
    assert forall|y: int| #[trigger] hasp(p, q, 0, y) implies y == 0 by { assert(!al_has(e, 0, y)); }
}
// ---- exports
pub proof fn lemma_nb_range(s: Sh, i: int, x: u64)
    requires s.ok(), 0 <= i < s.n(),
    ensures ranges(s.el, s.v[i].elo, s.v[i].elo + s.v[i].N, x) == s.adj(i, x as int),
{
    assert(s.vok(i));
    if s.adj(i, x as int) { let k = choose|k: int| 0 <= k < s.v[i].N && #[trigger] s.nb(i, k) == x; assert(s.el[s.v[i].elo + k] == x); }
    if ranges(s.el, s.v[i].elo, s.v[i].elo + s.v[i].N, x) { let m = choose|m: int| s.v[i].elo <= m < s.v[i].elo + s.v[i].N && #[trigger] s.el[m] == x; assert(s.nb(i, m - s.v[i].elo) == x); }
}
pub open spec fn rowp(e: NdArray<u64>, k: int) -> (int, int) { (e.el(k, 0) as int, e.el(k, 1) as int) }
pub open spec fn rows_of(e: NdArray<u64>, k: int, s: Set<(int, int)>) -> bool {
    &&& k == s.len()
    &&& forall|r: int| 0 <= r < k ==> s.contains(#[trigger] rowp(e, r))
    &&& forall|p: (int, int)| #[trigger] s.contains(p) ==> exists|r: int| 0 <= r < k && #[trigger] rowp(e, r) == p
}
pub proof fn lemma_rows(e: NdArray<u64>, f: NdArray<u64>, k: int, s: Set<(int, int)>, a: u64, b: u64)
    requires rows_of(e, k, s), k >= 0, f.el(k, 0) == a, f.el(k, 1) == b, forall|r: int, c: int| r != k ==> #[trigger] f.el(r, c) == e.el(r, c), !s.contains((a as int, b as int)),
    ensures rows_of(f, k + 1, s.insert((a as int, b as int))),
{
    let t = s.insert((a as int, b as int));
    assert forall|r: int| 0 <= r < k + 1 implies t.contains(#[trigger] rowp(f, r)) by { if r < k { assert(rowp(f, r) == rowp(e, r)); } }
    assert forall|p: (int, int)| #[trigger] t.contains(p) implies exists|r: int| 0 <= r < k + 1 && #[trigger] rowp(f, r) == p by {
        if s.contains(p) { let r = choose|r: int| 0 <= r < k && #[trigger] rowp(e, r) == p; assert(rowp(f, r) == p); } else { assert(rowp(f, k) == p); }
    }
}
// no more edges remain once the last is written
pub proof fn lemma_epr_room(s: Sh, i: int, k: int)
    requires s.ok(), 0 <= i < s.n(), s.v[i].spos < k < s.v[i].N,
    ensures epr(s, i, k).len() < edges_of(s).len(),
{
    reveal(edges_of);
    lemma_epr_step(s, i, k);
    lemma_degs(s);
    lemma_epr(s, i, k + 1);
    lemma_epr(s, s.n(), 0);
    assert(s.vok(i));
    let a = epr(s, i, k + 1); let b = edges_of(s);
    assert forall|p: (int, int)| a.contains(p) implies b.contains(p) by {
        let (x, y) = p;
        assert(a.contains((x, y)));
        if x == i { let j = choose|j: int| s.v[i].spos < j < k + 1 && #[trigger] s.nb(i, j) == y; lemma_side(s, i, j); assert(s.adj(i, y)); }
        assert(b.contains((x, y)));
    }
    lemma_len_subset(a, b);
}
// the first edge of the list of i, and the end of it
pub proof fn lemma_epr_ends(s: Sh, i: int)
    requires s.ok(), 0 <= i < s.n(),
    ensures epr(s, i, s.v[i].spos + 1) == epr(s, i, 0), epr(s, i + 1, 0) == epr(s, i, s.v[i].N),
{
    assert(s.vok(i));
    lemma_epr_flat(s, i, s.v[i].spos + 1);
}
pub proof fn lemma_epr_flat(s: Sh, i: int, k: int)
    requires s.ok(), 0 <= i < s.n(), 0 <= k <= s.v[i].spos + 1,
    ensures epr(s, i, k) == epr(s, i, 0),
    decreases k,
{
}
pub open spec fn am_of(a: NdArray<bool>, n: int, s: Set<(int, int)>) -> bool {
    a.dims() == 2 && a.n0() == n && a.n1() == n && forall|x: int, y: int| 0 <= x < n && 0 <= y < n ==> #[trigger] a.el(x, y) == (s.contains((x + 1, y + 1)) || s.contains((y + 1, x + 1)))
}
pub proof fn lemma_am_all(s: Sh, x: int, y: int)
    requires s.ok(),
    ensures (edges_of(s).contains((x, y)) || edges_of(s).contains((y, x))) == (x != y && s.adj(x, y)),
{
    reveal(edges_of);
    lemma_degs(s);
    lemma_epr(s, s.n(), 0);
    assert(edges_of(s).contains((x, y)) == (0 <= x < s.n() && x < y && s.adj(x, y)));
    assert(edges_of(s).contains((y, x)) == (0 <= y < s.n() && y < x && s.adj(y, x)));
    if s.adj(x, y) { assert(s.adj(y, x)); }
    if s.adj(y, x) { assert(s.adj(x, y)); }
}
pub open spec fn al_of(a: Seq<StdSet>, n: int, s: Set<(int, int)>) -> bool {
    a.len() == n + 1 && forall|x: int, y: u64| 0 <= x <= n ==> #[trigger] a[x]@.contains(y) == (s.contains((x, y as int)) || s.contains((y as int, x)))
}
// ---- what is written of a graph, read again, gives its edges
proof fn lemma_ends(s: Sh, x: int, y: int)
    requires s.ok(), s.adj(x, y),
    ensures 0 <= x < s.n(), 0 <= y < s.n(), x == 0 ==> y == 0, s.adj(y, x),
{
    assert(s.vok(x)); assert(s.vok(0)); assert(s.nb(0, 0) == 0);
    let k = choose|k: int| 0 <= k < s.v[x].N && #[trigger] s.nb(x, k) == y;
    assert(s.nb(x, k) == y);
}
proof fn lemma_edge_ends(s: Sh, x: int, y: int)
    requires s.ok(), edges_of(s).contains((x, y)),
    ensures 1 <= x < y < s.n(), s.adj(x, y),
{
    reveal(edges_of); lemma_degs(s); lemma_epr(s, s.n(), 0);
    lemma_ends(s, x, y);
}
pub proof fn lemma_self(s: Sh, x: int)
    requires s.ok(), 0 <= x < s.n(),
    ensures s.adj(x, x),
{ assert(s.vok(x)); assert(s.nb(x, s.v[x].spos) == x); }
pub proof fn lemma_back_el(s: Sh, n: int, e: NdArray<u64>)
    requires s.ok(), s.n() == n + 1, e.dims() == 2, e.n1() == 2, rows_of(e, e.n0(), edges_of(s)),
    ensures el_ok(e, n), forall|x: int, y: int| #[trigger] s.adj(x, y) == ((0 <= x == y <= n) || el_to(e, e.n0(), x, y)),
{
    let m = e.n0();
    assert forall|k: int| 0 <= k < m implies #[trigger] row_ok(e, n, k) by { assert(edges_of(s).contains(rowp(e, k))); lemma_edge_ends(s, rowp(e, k).0, rowp(e, k).1); }
    assert forall|x: int, y: int| #[trigger] s.adj(x, y) == ((0 <= x == y <= n) || el_to(e, m, x, y)) by {
        if 0 <= x == y <= n { lemma_self(s, x); }
        if s.adj(x, y) { lemma_ends(s, x, y); }
        lemma_am_all(s, x, y);
        if el_to(e, m, x, y) {
            let k = choose|k: int| 0 <= k < m && #[trigger] row_is(e, k, x, y);
            assert(edges_of(s).contains(rowp(e, k)));
        }
        if x != y && s.adj(x, y) {
            let p = if edges_of(s).contains((x, y)) { (x, y) } else { (y, x) };
            assert(edges_of(s).contains(p));
            let k = choose|k: int| 0 <= k < m && #[trigger] rowp(e, k) == p;
            assert(row_is(e, k, x, y));
        }
    }
}
pub proof fn lemma_back_am(s: Sh, n: int, a: NdArray<bool>)
    requires s.ok(), s.n() == n + 1, a.n0() == n, forall|x: int, y: int| 0 <= x < n && 0 <= y < n ==> #[trigger] a.el(x, y) == (x != y && s.adj(x + 1, y + 1)),
    ensures forall|x: int, y: int| #[trigger] s.adj(x, y) == ((0 <= x == y <= n) || am_rel(a, x, y)),
{
    assert forall|x: int, y: int| #[trigger] s.adj(x, y) == ((0 <= x == y <= n) || am_rel(a, x, y)) by {
        if 0 <= x == y <= n { lemma_self(s, x); }
        if s.adj(x, y) { lemma_ends(s, x, y); lemma_ends(s, y, x); }
        if 1 <= x <= n && 1 <= y <= n {
            assert(a.el(x - 1, y - 1) == (x != y && s.adj(x, y)));
            assert(a.el(y - 1, x - 1) == (x != y && s.adj(y, x)));
            if s.adj(y, x) { lemma_ends(s, y, x); }
        }
    }
}
spec fn side(p: Set<(int, int)>, n: int, x: int) -> Set<int> { Set::range(0, n + 1).filter(|y: int| p.contains((x, y)) || p.contains((y, x))) }
spec fn sides(p: Set<(int, int)>, n: int, k: int) -> int decreases k { if k <= 0 { 0 } else { sides(p, n, k - 1) + side(p, n, k - 1).len() } }
proof fn lemma_sides_none(n: int, k: int)
    ensures sides(Set::empty(), n, k) == 0,
    decreases k,
{ if k > 0 { lemma_sides_none(n, k - 1); assert(side(Set::empty(), n, k - 1) =~= Set::empty()); } }
proof fn lemma_sides_add(p: Set<(int, int)>, n: int, a: int, b: int, k: int)
    requires 0 <= a < b <= n, !p.contains((a, b)), !p.contains((b, a)),
    ensures sides(p.insert((a, b)), n, k) == sides(p, n, k) + (if a < k { 1int } else { 0 }) + (if b < k { 1int } else { 0 }),
    decreases k,
{
    if k > 0 {
        lemma_sides_add(p, n, a, b, k - 1);
        let x = k - 1; let q = p.insert((a, b));
        if x == a { assert(side(q, n, x) =~= side(p, n, x).insert(b)); }
        else if x == b { assert(side(q, n, x) =~= side(p, n, x).insert(a)); }
        else { assert(side(q, n, x) =~= side(p, n, x)); }
    }
}
proof fn lemma_sides(p: Set<(int, int)>, n: int)
    requires forall|a: int, b: int| #[trigger] p.contains((a, b)) ==> 0 <= a < b <= n,
    ensures sides(p, n, n + 1) == 2 * p.len(),
    decreases p.len(),
{
    if p.len() == 0 { assert(p =~= Set::empty()); lemma_sides_none(n, n + 1); }
    else {
        let e = p.choose(); let q = p.remove(e); let (a, b) = e;
        assert(p.contains((a, b)));
        assert(!p.contains((b, a)));
        assert(p =~= q.insert((a, b)));
        assert forall|c: int, d: int| #[trigger] q.contains((c, d)) implies 0 <= c < d <= n by { assert(p.contains((c, d))); }
        lemma_sides(q, n);
        lemma_sides_add(q, n, a, b, n + 1);
    }
}
proof fn lemma_as_ints(a: Set<u64>, b: Set<int>)
    requires forall|y: u64| #[trigger] a.contains(y) ==> b.contains(y as int), forall|y: int| #[trigger] b.contains(y) ==> 0 <= y <= u64::MAX && a.contains(y as u64),
    ensures a.len() == b.len(),
    decreases a.len(),
{
    if a.len() == 0 {
        assert(a =~= Set::empty());
        assert(b =~= Set::empty()) by { assert forall|y: int| !#[trigger] b.contains(y) by { if b.contains(y) { assert(a.contains(y as u64)); } } }
    } else {
        let y = a.choose();
        assert(a.contains(y));
        lemma_as_ints(a.remove(y), b.remove(y as int));
    }
}
proof fn lemma_al_total(e: Seq<StdSet>, p: Set<(int, int)>, n: int, k: int)
    requires al_of(e, n, p), 0 <= k <= n + 1, n <= u64::MAX, forall|a: int, b: int| #[trigger] p.contains((a, b)) ==> 0 <= a < b <= n,
    ensures total(e, k) == sides(p, n, k),
    decreases k,
{
    if k > 0 {
        lemma_al_total(e, p, n, k - 1);
        lemma_as_ints(e[k - 1]@, side(p, n, k - 1));
    }
}
pub proof fn lemma_back_al(s: Sh, n: int, a: Seq<StdSet>)
    requires s.ok(), s.n() == n + 1, a.len() == n + 1, forall|x: int, y: u64| 0 <= x <= n ==> #[trigger] a[x]@.contains(y) == (x != y && s.adj(x, y as int)),
    ensures al_ok(a, n, edges_of(s).len() as int), forall|x: int, y: int| #[trigger] s.adj(x, y) == ((0 <= x == y <= n) || al_has(a, x, y)),
{
    let p = edges_of(s);
    assert forall|x: int, y: u64| 0 <= x <= n implies #[trigger] a[x]@.contains(y) == (p.contains((x, y as int)) || p.contains((y as int, x))) by { lemma_am_all(s, x, y as int); }
    assert forall|x: int, y: int| #[trigger] p.contains((x, y)) implies 0 <= x < y <= n by { lemma_edge_ends(s, x, y); }
    lemma_al_total(a, p, n, n + 1);
    lemma_sides(p, n);
    assert forall|x: int, y: int| #[trigger] al_has(a, x, y) implies al_one(a, n, x, y) by { assert(a[x]@.contains(y as u64)); lemma_ends(s, x, y); lemma_ends(s, y, x); assert(a[y]@.contains(x as u64)); }
    assert(a[0]@ =~= Set::empty()) by { assert forall|y: u64| !#[trigger] a[0]@.contains(y) by { if s.adj(0, y as int) { lemma_ends(s, 0, y as int); } } }
    assert forall|x: int, y: int| #[trigger] s.adj(x, y) == ((0 <= x == y <= n) || al_has(a, x, y)) by {
        if 0 <= x == y <= n { lemma_self(s, x); }
        if s.adj(x, y) { lemma_ends(s, x, y); assert(a[x]@.contains(y as u64) == (x != y)); }
    }
}
pub proof fn lemma_same_graph(s: Sh, t: Sh)
    requires s.ok(), t.ok(), s.n() == t.n(), forall|x: int, y: int| #[trigger] s.adj(x, y) == t.adj(x, y),
    ensures edges_of(s) == edges_of(t),
{
    reveal(edges_of);
    lemma_degs(s); lemma_degs(t); lemma_epr(s, s.n(), 0); lemma_epr(t, t.n(), 0);
    assert forall|p: (int, int)| edges_of(s).contains(p) == edges_of(t).contains(p) by {
        let (x, y) = p;
        assert(edges_of(s).contains((x, y)) == (0 <= x < s.n() && x < y && s.adj(x, y)));
        assert(edges_of(t).contains((x, y)) == (0 <= x < s.n() && x < y && t.adj(x, y)));
    }
    assert(edges_of(s) =~= edges_of(t));
}
