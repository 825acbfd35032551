@lib
// the vertices of a list
pub open spec fn vset(c: Seq<u64>) -> Set<int> { c.map_values(|x: u64| x as int).to_set() }
// u is the vertex of q that comes first in the order by (number of neighbours, label)
pub open spec fn first(s: Sh, u: int, q: Set<int>) -> bool { q.contains(u) && forall|w: int| #[trigger] q.contains(w) && w != u ==> s.later(u, w) }
pub proof fn lemma_kset_len(s: Sh, u: int, q: Set<int>)
    requires s.ok(), 0 <= u < s.n(),
    ensures kset(s, u, q).len() <= q.len(),
    decreases q.len(),
{
    assert(s.vok(u));
    let ks = kset(s, u, q);
    if ks.len() > 0 {
        let k = ks.choose();
        assert(ks.contains(k));
        let w = s.nb(u, k);
        assert(kset(s, u, q.remove(w)) =~= ks.remove(k)) by {
            assert forall|j: int| #[trigger] ks.contains(j) && j != k implies s.nb(u, j) != w by { if j < k { assert(s.nb(u, j) < s.nb(u, k)); } else { assert(s.nb(u, k) < s.nb(u, j)); } }
            assert forall|j: int| #![trigger kset(s, u, q.remove(w)).contains(j)] #![trigger ks.remove(k).contains(j)] kset(s, u, q.remove(w)).contains(j) == ks.remove(k).contains(j) by { if ks.contains(j) && j != k { assert(s.nb(u, j) != w); } }
        }
        lemma_kset_len(s, u, q.remove(w));
    }
}
// every clique is found below exactly one root
pub proof fn lemma_first_of(s: Sh, q: Set<int>)
    requires s.ok(), s.clq(q), q.len() > 0,
    ensures exists|u: int| #[trigger] first(s, u, q), forall|u: int| #[trigger] first(s, u, q) ==> s.rclq(u, kset(s, u, q)) && kset(s, u, q).len() == q.len(),
        forall|u: int, v: int| #[trigger] first(s, u, q) && #[trigger] first(s, v, q) ==> u == v,
{
    lemma_first(s, q);
    let u0 = choose|u: int| q.contains(u) && forall|w: int| #[trigger] q.contains(w) && w != u ==> s.later(u, w);
    assert(first(s, u0, q));
    assert forall|u: int| #[trigger] first(s, u, q) implies s.rclq(u, kset(s, u, q)) && kset(s, u, q).len() == q.len() by {
        let ks = kset(s, u, q);
        assert(s.vok(u));
        let p = s.v[u].spos;
        assert(s.nb(u, p) == u);
        assert(ks.contains(p));
        assert forall|i: int| #[trigger] ks.contains(i) implies s.rin(u, i) by {
            if i != p { if i < p { assert(s.nb(u, i) < s.nb(u, p)); } else { assert(s.nb(u, p) < s.nb(u, i)); } assert(q.contains(s.nb(u, i))); }
        }
        assert forall|w: int| #[trigger] q.contains(w) implies named(s, u, ks, w) by {
            assert(s.adj(u, w));
            let k = choose|k: int| 0 <= k < s.v[u].N && #[trigger] s.nb(u, k) == w;
            assert(ks.contains(k));
        }
        lemma_named(s, u, ks, q);
        lemma_kset_len(s, u, q);
        assert(s.rclq(u, ks));
    }
}
// a listed clique is the one its root found
pub proof fn lemma_listed(s: Sh, u: int, k: Set<int>, c: Seq<u64>)
    requires s.ok(), 1 <= u < s.n(), s.rclq(u, k), clq_list(s, c), lists_k(s, u, k, c), c.len() == k.len(),
    ensures s.clq(vset(c)), first(s, u, vset(c)), kset(s, u, vset(c)) == k, vset(c).len() == c.len(),
        forall|q: Set<int>| s.clq(q) && #[trigger] first(s, u, q) && kset(s, u, q) == k ==> q == vset(c),
{
    let q = vset(c);
    let m = c.map_values(|x: u64| x as int);
    assert(s.vok(u));
    assert(m.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < m.len() && 0 <= j < m.len() && i != j implies m[i] != m[j] by { if i < j { assert(c[i] < c[j]); } else { assert(c[j] < c[i]); } } }
    m.unique_seq_to_set();
    let ks = kset(s, u, q);
    assert forall|w: int| #[trigger] q.contains(w) implies 1 <= w < s.n() && onlist(s, u, k, w) by { let i = choose|i: int| 0 <= i < m.len() && m[i] == w; assert(m[i] == c[i] as int); }
    assert forall|w: int| #[trigger] q.contains(w) implies named(s, u, ks, w) by {
        assert(onlist(s, u, k, w));
        let j = choose|j: int| k.contains(j) && #[trigger] s.nb(u, j) == w;
        assert(ks.contains(j));
    }
    assert(ks.subset_of(k)) by {
        assert forall|i: int| #[trigger] ks.contains(i) implies k.contains(i) by {
            assert(q.contains(s.nb(u, i)));
            let j = choose|j: int| k.contains(j) && #[trigger] s.nb(u, j) == s.nb(u, i);
            if i < j { assert(s.nb(u, i) < s.nb(u, j)); } else if j < i { assert(s.nb(u, j) < s.nb(u, i)); }
        }
    }
    lemma_named(s, u, ks, q);
    lemma_len_subset(ks, k);
    lemma_subset_equality(ks, k);
    assert(ks.contains(s.v[u].spos));
    assert(s.nb(u, s.v[u].spos) == u);
    assert forall|w: int| #[trigger] q.contains(w) && w != u implies s.later(u, w) by {
        assert(onlist(s, u, k, w));
        let j = choose|j: int| k.contains(j) && #[trigger] s.nb(u, j) == w;
        assert(s.rin(u, j));
    }
    assert forall|a: int, b: int| #[trigger] q.contains(a) && #[trigger] q.contains(b) implies s.adj(a, b) by {
        let i = choose|i: int| 0 <= i < m.len() && m[i] == a; let j = choose|j: int| 0 <= j < m.len() && m[j] == b;
        assert(m[i] == c[i] as int && m[j] == c[j] as int);
        if i < j { assert(c[i] < c[j]); } else if j < i { assert(c[j] < c[i]); assert(s.adj(b, a)); }
        else { assert(s.vok(a)); assert(s.nb(a, s.v[a].spos) == a); }
    }
    assert forall|p: Set<int>| s.clq(p) && #[trigger] first(s, u, p) && kset(s, u, p) == k implies p == q by {
        assert forall|w: int| p.contains(w) implies q.contains(w) by {
            assert(s.adj(u, w));
            let i = choose|i: int| 0 <= i < s.v[u].N && #[trigger] s.nb(u, i) == w;
            assert(kset(s, u, p).contains(i)); assert(ks.contains(i));
        }
        assert forall|w: int| q.contains(w) implies p.contains(w) by {
            let i = choose|i: int| #[trigger] ks.contains(i) && s.nb(u, i) == w;
            assert(kset(s, u, p).contains(i));
        }
        assert(p =~= q);
    }
}
