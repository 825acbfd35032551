@lib
// What a stack (ids, cs) still stands for, as sets of indices into the list of the root u.
pub open spec fn gen1(ids: Seq<int>, c: Set<int>, t: int, q: Set<int>) -> bool {
    &&& forall|i: int| 0 <= i <= t ==> q.contains(#[trigger] ids[i])
    &&& forall|x: int| #[trigger] q.contains(x) ==> among(ids, t, x) || c.contains(x)
}
pub open spec fn pend(ids: Seq<int>, cs: Seq<Set<int>>, q: Set<int>) -> bool {
    exists|t: int| 0 <= t < ids.len() && #[trigger] gen1(ids, cs[t], t, q)
}
// the element chosen at a depth is no longer a candidate one level up
#[verifier::opaque]
pub open spec fn sep(ids: Seq<int>, cs: Seq<Set<int>>) -> bool {
    forall|t: int| 0 <= t && t + 1 < ids.len() ==> !(#[trigger] cs[t]).contains(ids[t + 1])
}
// the stacks stand for the same cliques
#[verifier::opaque]
pub open spec fn all_pend(s: Sh, u: int, ids: Seq<int>, cs: Seq<Set<int>>, ids2: Seq<int>, cs2: Seq<Set<int>>) -> bool {
    forall|q: Set<int>| #[trigger] s.rclq(u, q) ==> pend(ids, cs, q) == pend(ids2, cs2, q)
}
// nothing is bound to be found above this size
pub proof fn lemma_covd_top(s: Sh, u: int, ids: Seq<int>, cs: Seq<Set<int>>)
    requires s.ok(), 0 <= u < s.n(),
    ensures covd(s, u, ids, cs, s.v[u].N),
{
    reveal(covd);
    assert(s.vok(u));
    lemma_rcount(s, u, s.v[u].N);
    assert forall|q: Set<int>| #[trigger] s.rclq(u, q) && q.len() > s.v[u].N implies covt(ids, cs, q) by { lemma_rclq_bound(s, u, q); }
}
pub proof fn lemma_gen_same(ids: Seq<int>, ids2: Seq<int>, c: Set<int>, t: int, q: Set<int>)
    requires 0 <= t < ids.len(), 0 <= t < ids2.len(), forall|i: int| 0 <= i <= t ==> #[trigger] ids2[i] == ids[i],
    ensures gen1(ids, c, t, q) == gen1(ids2, c, t, q),
{
    assert forall|x: int| #[trigger] among(ids, t, x) == among(ids2, t, x) by {
        if among(ids, t, x) { let i = choose|i: int| 0 <= i <= t && #[trigger] ids[i] == x; assert(ids2[i] == x); }
        if among(ids2, t, x) { let i = choose|i: int| 0 <= i <= t && #[trigger] ids2[i] == x; assert(ids[i] == x); }
    }
    assert forall|i: int| 0 <= i <= t && gen1(ids, c, t, q) implies q.contains(#[trigger] ids2[i]) by { assert(q.contains(ids[i])); }
    assert forall|i: int| 0 <= i <= t && gen1(ids2, c, t, q) implies q.contains(#[trigger] ids[i]) by { assert(q.contains(ids2[i])); }
}
// removing j at the top changes what the top stands for only by sets that hold j
pub proof fn lemma_pend_top(ids: Seq<int>, cs: Seq<Set<int>>, j: int, q: Set<int>)
    requires cs.len() == ids.len(), cs.len() > 0, cs.last().contains(j), !ids.contains(j),
    ensures ({
        let t = cs.len() - 1; let cs2 = cs.update(t, cs.last().remove(j));
        &&& pend(ids, cs2, q) ==> pend(ids, cs, q)
        &&& pend(ids, cs, q) && !pend(ids, cs2, q) ==> q.contains(j) && gen1(ids, cs[t], t, q)
        &&& gen1(ids, cs2[t], t, q) ==> !q.contains(j)
    }),
{
    let t = cs.len() - 1; let c2 = cs.last().remove(j); let cs2 = cs.update(t, c2);
    if pend(ids, cs2, q) {
        let a = choose|a: int| 0 <= a < ids.len() && #[trigger] gen1(ids, cs2[a], a, q);
        assert(gen1(ids, cs[a], a, q));
    }
    if pend(ids, cs, q) && !pend(ids, cs2, q) {
        let a = choose|a: int| 0 <= a < ids.len() && #[trigger] gen1(ids, cs[a], a, q);
        if a < t { assert(gen1(ids, cs2[a], a, q)); }
        if !q.contains(j) { assert(gen1(ids, cs2[t], t, q)); }
    }
    if gen1(ids, cs2[t], t, q) && q.contains(j) {
        assert(among(ids, t, j));
    }
}
pub proof fn lemma_p_deeper(s: Sh, u: int, ids: Seq<int>, cs: Seq<Set<int>>, j: int, k: int)
    requires s.ok(), 1 <= u < s.n(), ids_ok(s, u, ids), cs_ok(s, u, ids, cs), sep(ids, cs), cs.len() > 0, cs.last().contains(j),
        k >= s.v[u].N,
    ensures ({
        let c2 = cs.last().remove(j);
        let d = c2.difference(far(s, u, c2, j, k));
        let cs2 = cs.update(cs.len() - 1, c2).push(d);
        let ids2 = ids.push(j);
        &&& ids_ok(s, u, ids2) && cs_ok(s, u, ids2, cs2) && sep(ids2, cs2) && all_pend(s, u, ids, cs, ids2, cs2) && d.len() <= c2.len()
    }),
{
    lemma_covd_top(s, u, ids, cs);
    lemma_deeper(s, u, ids, cs, j, k, s.v[u].N);
    lemma_remove_top(s, u, ids, cs, j);
    reveal(all_pend); reveal(sep); reveal(cs_ok);
    let t = cs.len() - 1;
    let c2 = cs.last().remove(j);
    let f = far(s, u, c2, j, k);
    let d = c2.difference(f);
    let cs1 = cs.update(t, c2);
    let cs2 = cs1.push(d);
    let ids2 = ids.push(j);
    assert forall|a: int| 0 <= a && a + 1 < ids2.len() implies !(#[trigger] cs2[a]).contains(ids2[a + 1]) by {
        if a < t { assert(cs2[a] == cs[a] && ids2[a + 1] == ids[a + 1]); }
    }
    assert forall|q: Set<int>| #[trigger] s.rclq(u, q) implies pend(ids, cs, q) == pend(ids2, cs2, q) by {
        if pend(ids, cs, q) {
            let a = choose|a: int| 0 <= a < ids.len() && #[trigger] gen1(ids, cs[a], a, q);
            if a < t {
                lemma_gen_same(ids, ids2, cs[a], a, q);
                assert(gen1(ids2, cs2[a], a, q));
            } else if q.contains(j) {
                lemma_not_far(s, u, c2, j, k, q);
                assert forall|x: int| #[trigger] q.contains(x) implies among(ids2, t + 1, x) || d.contains(x) by {
                    if among(ids, t, x) { let i = choose|i: int| 0 <= i <= t && #[trigger] ids[i] == x; assert(ids2[i] == x); }
                    else if x == j { assert(ids2[t + 1] == j); }
                    else { assert(c2.contains(x)); }
                }
                assert forall|i: int| 0 <= i <= t + 1 implies q.contains(#[trigger] ids2[i]) by { if i <= t { assert(ids2[i] == ids[i]); } }
                assert(gen1(ids2, cs2[t + 1], t + 1, q));
            } else {
                assert(gen1(ids, c2, t, q));
                lemma_gen_same(ids, ids2, c2, t, q);
                assert(gen1(ids2, cs2[t], t, q));
            }
        }
        if pend(ids2, cs2, q) {
            let a = choose|a: int| 0 <= a < ids2.len() && #[trigger] gen1(ids2, cs2[a], a, q);
            if a <= t {
                lemma_gen_same(ids, ids2, cs2[a], a, q);
                assert(gen1(ids, cs[a], a, q));
            } else {
                assert forall|x: int| #[trigger] q.contains(x) implies among(ids, t, x) || cs[t].contains(x) by {
                    if among(ids2, t + 1, x) { let i = choose|i: int| 0 <= i <= t + 1 && #[trigger] ids2[i] == x; if i <= t { assert(ids[i] == x); } }
                }
                assert forall|i: int| 0 <= i <= t implies q.contains(#[trigger] ids[i]) by { assert(ids2[i] == ids[i]); }
                assert(gen1(ids, cs[t], t, q));
            }
        }
    }
}
