@lib
// the total weight of a set of vertices
pub open spec fn setw_to(s: Sh, q: Set<int>, n: int) -> real
    decreases n,
{ if n <= 0 { 0real } else { setw_to(s, q, n - 1) + (if q.contains(n - 1) { s.v[n - 1].w } else { 0real }) } }
pub open spec fn setw(s: Sh, q: Set<int>) -> real { setw_to(s, q, s.n()) }
pub proof fn lemma_setw_gap(s: Sh, q: Set<int>, a: int, b: int)
    requires 0 <= a <= b, forall|x: int| a <= x < b ==> !#[trigger] q.contains(x),
    ensures setw_to(s, q, a) == setw_to(s, q, b),
    decreases b,
{ if a < b { lemma_setw_gap(s, q, a, b - 1); assert(!q.contains(b - 1)); } }
pub open spec fn upto(s: Sh, u: int, k: int) -> int { if k <= 0 { 0 } else { s.nb(u, k - 1) + 1 } }
proof fn lemma_setw_k(s: Sh, u: int, q: Set<int>, k: int)
    requires s.ok(), 0 <= u < s.n(), 0 <= k <= s.v[u].N, forall|w: int| #[trigger] q.contains(w) ==> s.adj(u, w),
    ensures wsum(s, u, kset(s, u, q), k) == setw_to(s, q, upto(s, u, k)),
    decreases k,
{
    if k > 0 {
        assert(s.vok(u));
        lemma_setw_k(s, u, q, k - 1);
        let a = upto(s, u, k - 1); let b = s.nb(u, k - 1);
        assert(a <= b) by { if k > 1 { assert(s.nb(u, k - 2) < s.nb(u, k - 1)); } }
        assert forall|x: int| a <= x < b implies !#[trigger] q.contains(x) by {
            if q.contains(x) {
                let i = choose|i: int| 0 <= i < s.v[u].N && #[trigger] s.nb(u, i) == x;
                if i < k - 2 { assert(s.nb(u, i) < s.nb(u, k - 2)); }
                if i > k - 1 { assert(s.nb(u, k - 1) < s.nb(u, i)); }
            }
        }
        lemma_setw_gap(s, q, a, b);
        assert(kset(s, u, q).contains(k - 1) == q.contains(b));
    }
}
// the weight of a clique, found below its first vertex, is that of its vertices
pub proof fn lemma_setw(s: Sh, u: int, q: Set<int>)
    requires s.ok(), 0 <= u < s.n(), forall|w: int| #[trigger] q.contains(w) ==> s.adj(u, w),
    ensures wof(s, u, kset(s, u, q)) == setw(s, q),
{
    let n = s.v[u].N;
    assert(s.vok(u));
    lemma_setw_k(s, u, q, n);
    assert forall|x: int| upto(s, u, n) <= x < s.n() implies !#[trigger] q.contains(x) by {
        if q.contains(x) {
            let i = choose|i: int| 0 <= i < s.v[u].N && #[trigger] s.nb(u, i) == x;
            if i < n - 1 { assert(s.nb(u, i) < s.nb(u, n - 1)); }
        }
    }
    lemma_setw_gap(s, q, upto(s, u, n), s.n());
}
pub open spec fn wroot(s: Sh, u: int, k: Set<int>, q: Set<int>) -> bool { 1 <= u < s.n() && s.rclq(u, k) && wof(s, u, k) == setw(s, q) && k.len() == q.len() }
pub proof fn lemma_wowner(s: Sh, q: Set<int>)
    requires s.ok(), s.clq(q), q.len() > 0,
    ensures exists|u: int, k: Set<int>| #[trigger] wroot(s, u, k, q),
{
    lemma_first_of(s, q);
    let u = choose|u: int| #[trigger] first(s, u, q);
    lemma_setw(s, u, q);
    assert(wroot(s, u, kset(s, u, q), q));
}
// the weight of a list is that of its vertices
pub proof fn lemma_lsetw(s: Sh, c: Seq<u64>, k: int)
    requires 0 <= k <= c.len(), forall|i: int| 0 <= i < c.len() ==> (#[trigger] c[i]) < s.n(), forall|i: int, j: int| 0 <= i < j < c.len() ==> (#[trigger] c[i]) < (#[trigger] c[j]),
    ensures lsum(s, c, k) == setw_to(s, vset(c), if k == 0 { 0 } else { c[k - 1] + 1 }),
        k == c.len() ==> lsum(s, c, k) == setw(s, vset(c)),
    decreases k,
{
    let m = c.map_values(|x: u64| x as int); let q = vset(c);
    let e = if k == 0 { 0 } else { c[k - 1] + 1 };
    if k > 0 {
        lemma_lsetw(s, c, k - 1);
        let a = if k == 1 { 0 } else { c[k - 2] + 1 };
        assert forall|x: int| a <= x < c[k - 1] implies !#[trigger] q.contains(x) by {
            if q.contains(x) { let i = choose|i: int| 0 <= i < m.len() && m[i] == x; assert(m[i] == c[i] as int); if i < k - 2 { assert(c[i] < c[k - 2]); } if i > k - 1 { assert(c[k - 1] < c[i]); } }
        }
        lemma_setw_gap(s, q, a, c[k - 1] as int);
        assert(m[k - 1] == c[k - 1] as int);
        assert(q.contains(c[k - 1] as int));
    }
    if k == c.len() {
        assert forall|x: int| e <= x < s.n() implies !#[trigger] q.contains(x) by {
            if q.contains(x) { let i = choose|i: int| 0 <= i < m.len() && m[i] == x; assert(m[i] == c[i] as int); if i < k - 1 { assert(c[i] < c[k - 1]); } }
        }
        lemma_setw_gap(s, q, e, s.n());
    }
}
