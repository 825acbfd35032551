@lib
// ---- correspondences
pub open spec fn apart2(s: Sh, n1: int, n2: int) -> bool {
    &&& s.n() == n1 * n2 + 1 && n1 >= 0 && n2 >= 0
    &&& forall|x: int, y: int| #[trigger] s.adj(x, y) ==> x == y || (dec1(x, n2) != dec1(y, n2) && dec2(x, n2) != dec2(y, n2))
}
pub open spec fn one_to_one(p: Seq<u64>, q: Seq<u64>, n1: int, n2: int) -> bool {
    &&& forall|k: int| 0 <= k < p.len() ==> #[trigger] p[k] < n1 && q[k] < n2
    &&& forall|k: int, l: int| 0 <= k < l < p.len() ==> #[trigger] p[k] != #[trigger] p[l] && q[k] != q[l]
}
pub proof fn lemma_one_to_one(s: Sh, n1: int, n2: int, c: Seq<u64>, p: Seq<u64>, q: Seq<u64>)
    requires apart2(s, n1, n2), clq_list(s, c), decoded(c, n2, p, q),
    ensures one_to_one(p, q, n1, n2), p.len() == q.len(),
{
    assert forall|k: int| 0 <= k < p.len() implies #[trigger] p[k] < n1 && q[k] < n2 by {
        assert(1 <= c[k] <= n1 * n2);
        assert(n2 >= 1) by { assert(n2 == 0 ==> n1 * n2 == 0) by(nonlinear_arith); }
        lemma_dec(c[k] as int, n1, n2);
        assert(0 <= k < c.len());
        assert(p[k] == (c[k] - 1) / n2);
        assert(q[k] == (c[k] - 1) % n2);
        assert(dec1(c[k] as int, n2) <= n1 && dec2(c[k] as int, n2) <= n2);
    }
    assert forall|k: int, l: int| 0 <= k < l < p.len() implies #[trigger] p[k] != #[trigger] p[l] && q[k] != q[l] by {
        assert(c[k] < c[l] && s.adj(c[k] as int, c[l] as int));
        assert(p[k] == (c[k] - 1) / n2 && p[l] == (c[l] - 1) / n2);
        assert(q[k] == (c[k] - 1) % n2 && q[l] == (c[l] - 1) % n2);
    }
}
pub open spec fn edges_kept(s1: Sh, s2: Sh, p: Seq<u64>, q: Seq<u64>) -> bool {
    forall|k: int, l: int| 0 <= k < p.len() && 0 <= l < p.len() && k != l && #[trigger] s2.adj(q[k] + 1, q[l] + 1) ==> s1.adj(p[k] + 1, p[l] + 1)
}
// and those of an isomorphism graph keep the edges of the second graph
pub proof fn lemma_iso_map(s: Sh, s1: Sh, s2: Sh, c: Seq<u64>, p: Seq<u64>, q: Seq<u64>)
    requires s.ok(), s1.ok(), s2.ok(), s.n() == (s1.n() - 1) * (s2.n() - 1) + 1, clq_list(s, c), decoded(c, s2.n() - 1, p, q),
        forall|x: int, y: int| #[trigger] s.adj(x, y) == ((0 <= x == y <= (s1.n() - 1) * (s2.n() - 1)) || isoc(s1, s2, x, y)),
    ensures one_to_one(p, q, s1.n() - 1, s2.n() - 1), edges_kept(s1, s2, p, q),
{
    let m = s2.n() - 1;
    assert(apart2(s, s1.n() - 1, m));
    lemma_one_to_one(s, s1.n() - 1, m, c, p, q);
    assert forall|k: int, l: int| 0 <= k < p.len() && 0 <= l < p.len() && k != l && #[trigger] s2.adj(q[k] + 1, q[l] + 1) implies s1.adj(p[k] + 1, p[l] + 1) by {
        assert(0 <= k < c.len() && 0 <= l < c.len());
        assert(p[k] == (c[k] - 1) / m && p[l] == (c[l] - 1) / m);
        assert(q[k] == (c[k] - 1) % m && q[l] == (c[l] - 1) % m);
        if k < l { assert(s.adj(c[k] as int, c[l] as int)); } else { assert(s.adj(c[l] as int, c[k] as int)); assert(s.adj(c[k] as int, c[l] as int)); }
        assert(c[k] != c[l]) by { if k < l { assert(c[k] < c[l]); } else { assert(c[l] < c[k]); } }
        assert(isoc(s1, s2, c[k] as int, c[l] as int));
    }
}
