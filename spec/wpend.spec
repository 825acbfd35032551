@lib
// what the stack stands for after the top, without candidates, is taken off
pub proof fn lemma_p_up(s: Sh, u: int, ids: Seq<int>, cs: Seq<Set<int>>)
    requires s.ok(), 1 <= u < s.n(), ids_ok(s, u, ids), cs_ok(s, u, ids, cs), sep(ids, cs), cs.len() > 0, cs.last().len() == 0,
    ensures ids_ok(s, u, ids.drop_last()), cs_ok(s, u, ids.drop_last(), cs.drop_last()), sep(ids.drop_last(), cs.drop_last()),
        meas(cs.drop_last()) < meas(cs), ids.drop_last().to_set() =~= ids.to_set().remove(ids.last()), ids.to_set().contains(ids.last()),
        forall|q: Set<int>| #[trigger] s.rclq(u, q) ==> pend(ids, cs, q) == (pend(ids.drop_last(), cs.drop_last(), q) || q == ids.to_set()),
{
    lemma_covd_top(s, u, ids, cs);
    lemma_up(s, u, ids, cs, s.v[u].N);
    reveal(sep); reveal(cs_ok);
    let ids2 = ids.drop_last(); let cs2 = cs.drop_last();
    let t = cs.len() - 1;
    assert(ids.contains(ids[t]));
    assert forall|a: int| 0 <= a && a + 1 < ids2.len() implies !(#[trigger] cs2[a]).contains(ids2[a + 1]) by { assert(cs2[a] == cs[a] && ids2[a + 1] == ids[a + 1]); }
    assert forall|q: Set<int>| #[trigger] s.rclq(u, q) implies pend(ids, cs, q) == (pend(ids2, cs2, q) || q == ids.to_set()) by {
        if pend(ids, cs, q) {
            let a = choose|a: int| 0 <= a < ids.len() && #[trigger] gen1(ids, cs[a], a, q);
            if a == t {
                assert(cs[t] =~= Set::empty());
                assert(q =~= ids.to_set()) by {
                    assert forall|x: int| #[trigger] q.contains(x) == ids.to_set().contains(x) by {
                        if q.contains(x) { assert(among(ids, t, x)); let i = choose|i: int| 0 <= i <= t && #[trigger] ids[i] == x; assert(ids.contains(x)); }
                        if ids.contains(x) { let i = choose|i: int| 0 <= i < ids.len() && ids[i] == x; assert(q.contains(ids[i])); }
                    }
                }
            } else {
                lemma_gen_same(ids, ids2, cs[a], a, q);
                assert(gen1(ids2, cs2[a], a, q));
            }
        }
        if pend(ids2, cs2, q) {
            let a = choose|a: int| 0 <= a < ids2.len() && #[trigger] gen1(ids2, cs2[a], a, q);
            lemma_gen_same(ids, ids2, cs[a], a, q);
            assert(gen1(ids, cs[a], a, q));
        }
        if q == ids.to_set() {
            assert forall|x: int| #[trigger] q.contains(x) implies among(ids, t, x) || cs[t].contains(x) by {
                let i = choose|i: int| 0 <= i < ids.len() && ids[i] == x; assert(ids[i] == x);
            }
            assert forall|i: int| 0 <= i <= t implies q.contains(#[trigger] ids[i]) by { assert(ids.contains(ids[i])); }
            assert(gen1(ids, cs[t], t, q));
        }
    }
}
pub proof fn lemma_p_start(s: Sh, u: int)
    requires s.ok(), 1 <= u < s.n(),
    ensures ({
        let ids = seq![s.v[u].spos]; let cs = seq![rset0(s, u, s.v[u].N)];
        &&& ids_ok(s, u, ids) && cs_ok(s, u, ids, cs) && sep(ids, cs) && ids.to_set() =~= set![s.v[u].spos]
        &&& forall|q: Set<int>| #[trigger] s.rclq(u, q) ==> pend(ids, cs, q)
    }),
{
    lemma_start(s, u, 1);
    reveal(sep);
    let ids = seq![s.v[u].spos]; let cs = seq![rset0(s, u, s.v[u].N)];
    let p = s.v[u].spos;
    assert forall|q: Set<int>| #[trigger] s.rclq(u, q) implies pend(ids, cs, q) by {
        assert forall|x: int| #[trigger] q.contains(x) implies among(ids, 0, x) || cs[0].contains(x) by {
            if x == p { assert(ids[0] == x); }
        }
        assert(gen1(ids, cs[0], 0, q));
    }
}
// the elements that can still join ids and j
pub open spec fn near(s: Sh, u: int, cs: Seq<Set<int>>, j: int, k: int) -> Set<int> {
    cs.last().remove(j).difference(far(s, u, cs.last().remove(j), j, k))
}
// j is taken off the top: what is lost are cliques between ids with j and those with all that can still join
pub proof fn lemma_p_cut(s: Sh, u: int, ids: Seq<int>, cs: Seq<Set<int>>, j: int, k: int)
    requires s.ok(), 1 <= u < s.n(), ids_ok(s, u, ids), cs_ok(s, u, ids, cs), sep(ids, cs), cs.len() > 0, cs.last().contains(j),
    ensures ({
        let cs2 = cs.update(cs.len() - 1, cs.last().remove(j));
        &&& cs_ok(s, u, ids, cs2) && sep(ids, cs2) && !ids.to_set().contains(j) && s.rclq(u, ids.to_set().insert(j)) && s.rclq(u, ids.to_set())
        &&& 0 <= j < s.v[u].N && j != s.v[u].spos && s.rin(u, j)
        &&& forall|q: Set<int>| #[trigger] s.rclq(u, q) && pend(ids, cs2, q) ==> pend(ids, cs, q)
        &&& forall|q: Set<int>| #[trigger] s.rclq(u, q) && pend(ids, cs, q) && !pend(ids, cs2, q) ==> mid(ids.to_set().insert(j), near(s, u, cs, j, k), q)
        &&& pend(ids, cs, ids.to_set().insert(j)) && !pend(ids, cs2, ids.to_set().insert(j))
        &&& forall|x: int| #[trigger] near(s, u, cs, j, k).contains(x) ==> 0 <= x < s.v[u].N && !ids.to_set().insert(j).contains(x)
    }),
{
    reveal(sep); reveal(ids_ok); reveal(cs_ok);
    lemma_remove_top(s, u, ids, cs, j);
    lemma_push_ids(s, u, ids, j);
    lemma_ids_len(s, u, ids.push(j));
    lemma_ids_len(s, u, ids);
    lemma_push_set(ids, j);
    let t = cs.len() - 1;
    let c2 = cs.last().remove(j);
    let cs2 = cs.update(t, c2);
    let f = far(s, u, c2, j, k);
    let p = ids.to_set().insert(j);
    assert(!ids.contains(j));
    assert(ids[0] == s.v[u].spos);
    assert forall|q: Set<int>| #[trigger] s.rclq(u, q) && pend(ids, cs2, q) implies pend(ids, cs, q) by { lemma_pend_top(ids, cs, j, q); }
    assert forall|q: Set<int>| #[trigger] s.rclq(u, q) && pend(ids, cs, q) && !pend(ids, cs2, q) implies mid(p, near(s, u, cs, j, k), q) by {
        lemma_pend_top(ids, cs, j, q);
        lemma_not_far(s, u, c2, j, k, q);
        assert forall|x: int| #[trigger] p.contains(x) implies q.contains(x) by {
            if x != j { let i = choose|i: int| 0 <= i < ids.len() && ids[i] == x; assert(q.contains(ids[i])); }
        }
        assert forall|x: int| #[trigger] q.contains(x) implies p.contains(x) || near(s, u, cs, j, k).contains(x) by {
            if among(ids, t, x) { let i = choose|i: int| 0 <= i <= t && #[trigger] ids[i] == x; assert(ids.contains(x)); }
            else if x != j { assert(c2.contains(x)); }
        }
    }
    lemma_pend_top(ids, cs, j, p);
    assert(gen1(ids, cs[t], t, p)) by {
        assert forall|x: int| #[trigger] p.contains(x) implies among(ids, t, x) || cs[t].contains(x) by {
            if x != j { let i = choose|i: int| 0 <= i < ids.len() && ids[i] == x; assert(ids[i] == x); }
        }
        assert forall|i: int| 0 <= i <= t implies p.contains(#[trigger] ids[i]) by { assert(ids.contains(ids[i])); }
    }
    if pend(ids, cs2, p) {
        let a = choose|a: int| 0 <= a < ids.len() && #[trigger] gen1(ids, cs2[a], a, p);
        if a < t {
            assert(ids.contains(ids[a + 1]));
            assert(p.contains(ids[a + 1]));
            assert(!cs[a].contains(ids[a + 1]));
            assert(among(ids, a, ids[a + 1]));
            let i = choose|i: int| 0 <= i <= a && #[trigger] ids[i] == ids[a + 1];
            assert(ids[i] != ids[a + 1]);
        }
    }
    assert forall|x: int| #[trigger] near(s, u, cs, j, k).contains(x) implies 0 <= x < s.v[u].N && !p.contains(x) by {
        assert(cs[t].contains(x));
        if ids.contains(x) { let i = choose|i: int| 0 <= i < ids.len() && ids[i] == x; assert(ids[i] != x); }
    }
}
pub open spec fn mid(r: Set<int>, c: Set<int>, q: Set<int>) -> bool {
    &&& forall|x: int| #[trigger] r.contains(x) ==> q.contains(x)
    &&& forall|x: int| #[trigger] q.contains(x) ==> r.contains(x) || c.contains(x)
}
// the weight of a clique between r and r with c
pub proof fn lemma_mid_w(s: Sh, u: int, r: Set<int>, c: Set<int>, q: Set<int>)
    requires s.ok(), wpos(s), 1 <= u < s.n(), mid(r, c, q), forall|x: int| #[trigger] c.contains(x) ==> !r.contains(x),
    ensures wof(s, u, r) <= wof(s, u, q) <= wof(s, u, r) + wof(s, u, c),
{
    lemma_w_sub(s, u, r, q, s.v[u].N);
    let d = r.union(c);
    lemma_w_sub(s, u, q, d, s.v[u].N);
    lemma_w_union(s, u, r, c, d, s.v[u].N);
}
// With positive weights every clique heavier than m is still to be found.
#[verifier::opaque]
pub open spec fn wcov(s: Sh, u: int, ids: Seq<int>, cs: Seq<Set<int>>, m: real) -> bool {
    wpos(s) ==> {
        &&& forall|q: Set<int>| #[trigger] s.rclq(u, q) && wof(s, u, q) > m ==> pend(ids, cs, q)
        &&& ids.len() > 0 ==> cs.last().len() > 0 || wof(s, u, ids.to_set()) <= m
    }
}
pub proof fn lemma_w_start(s: Sh, u: int, m: real)
    requires s.ok(), 1 <= u < s.n(), rset0(s, u, s.v[u].N).len() > 0 || m >= wt(s, u, s.v[u].spos),
    ensures ({
        let ids = seq![s.v[u].spos]; let cs = seq![rset0(s, u, s.v[u].N)];
        &&& ids_ok(s, u, ids) && cs_ok(s, u, ids, cs) && sep(ids, cs) && ids.to_set() =~= set![s.v[u].spos] && wcov(s, u, ids, cs, m)
        &&& wof(s, u, ids.to_set()) == wt(s, u, s.v[u].spos)
    }),
{
    lemma_p_start(s, u);
    reveal(wcov);
    lemma_w_root(s, u);
    let ids = seq![s.v[u].spos]; let cs = seq![rset0(s, u, s.v[u].N)];
    assert(ids.to_set() =~= set![s.v[u].spos]);
}
pub proof fn lemma_w_root(s: Sh, u: int)
    requires s.ok(), 1 <= u < s.n(),
    ensures wof(s, u, set![s.v[u].spos]) == wt(s, u, s.v[u].spos), wt(s, u, s.v[u].spos) == s.v[u].w,
{
    assert(s.vok(u));
    let p = s.v[u].spos;
    lemma_w_empty(s, u, Set::empty(), s.v[u].N);
    lemma_w_insert(s, u, Set::empty(), p, s.v[u].N);
    assert(Set::<int>::empty().insert(p) =~= set![p]);
    assert(s.nb(u, p) == u);
}
// the weight of what can be made of ids, j and its neighbours is at most m2
pub proof fn lemma_w_less(s: Sh, u: int, ids: Seq<int>, cs: Seq<Set<int>>, j: int, k: int, m: real, m2: real)
    requires s.ok(), 1 <= u < s.n(), ids_ok(s, u, ids), cs_ok(s, u, ids, cs), sep(ids, cs), cs.len() > 0, cs.last().contains(j), wcov(s, u, ids, cs, m), m <= m2,
        wof(s, u, ids.to_set()) + wt(s, u, j) + wof(s, u, near(s, u, cs, j, k)) <= m2,
    ensures ({
        let cs2 = cs.update(cs.len() - 1, cs.last().remove(j));
        cs_ok(s, u, ids, cs2) && sep(ids, cs2) && wcov(s, u, ids, cs2, m2)
    }),
{
    reveal(wcov);
    lemma_p_cut(s, u, ids, cs, j, k);
    let cs2 = cs.update(cs.len() - 1, cs.last().remove(j));
    let p = ids.to_set().insert(j); let c = near(s, u, cs, j, k);
    lemma_w_insert(s, u, ids.to_set(), j, s.v[u].N);
    if wpos(s) {
        assert forall|q: Set<int>| #[trigger] s.rclq(u, q) && wof(s, u, q) > m2 implies pend(ids, cs2, q) by {
            if !pend(ids, cs2, q) { lemma_mid_w(s, u, p, c, q); }
        }
        lemma_wt_pos(s, u, j);
        lemma_w_sub(s, u, Set::empty(), c, s.v[u].N);
    }
}
pub proof fn lemma_w_deeper(s: Sh, u: int, ids: Seq<int>, cs: Seq<Set<int>>, j: int, k: int, m: real)
    requires s.ok(), 1 <= u < s.n(), ids_ok(s, u, ids), cs_ok(s, u, ids, cs), sep(ids, cs), cs.len() > 0, cs.last().contains(j), wcov(s, u, ids, cs, m),
        k >= s.v[u].N, near(s, u, cs, j, k).len() > 0,
    ensures ({
        let c2 = cs.last().remove(j);
        let d = near(s, u, cs, j, k);
        let cs2 = cs.update(cs.len() - 1, c2).push(d);
        let ids2 = ids.push(j);
        &&& ids_ok(s, u, ids2) && cs_ok(s, u, ids2, cs2) && sep(ids2, cs2) && wcov(s, u, ids2, cs2, m) && d.len() <= c2.len()
        &&& wof(s, u, ids2.to_set()) == wof(s, u, ids.to_set()) + wt(s, u, j)
    }),
{
    reveal(wcov); reveal(all_pend);
    lemma_len_subset(near(s, u, cs, j, k), cs.last().remove(j));
    lemma_p_deeper(s, u, ids, cs, j, k);
    lemma_p_cut(s, u, ids, cs, j, k);
    lemma_push_set(ids, j);
    lemma_w_insert(s, u, ids.to_set(), j, s.v[u].N);
}
pub proof fn lemma_w_up(s: Sh, u: int, ids: Seq<int>, cs: Seq<Set<int>>, m: real)
    requires s.ok(), 1 <= u < s.n(), ids_ok(s, u, ids), cs_ok(s, u, ids, cs), sep(ids, cs), cs.len() > 0, cs.last().len() == 0, wcov(s, u, ids, cs, m),
    ensures ids_ok(s, u, ids.drop_last()), cs_ok(s, u, ids.drop_last(), cs.drop_last()), sep(ids.drop_last(), cs.drop_last()), wcov(s, u, ids.drop_last(), cs.drop_last(), m),
        meas(cs.drop_last()) < meas(cs), ids.drop_last().to_set() =~= ids.to_set().remove(ids.last()),
        wof(s, u, ids.drop_last().to_set()) == wof(s, u, ids.to_set()) - wt(s, u, ids.last()), 0 <= ids.last() < s.v[u].N,
        ids.len() > 1 ==> ids.last() != s.v[u].spos && s.rin(u, ids.last()),
{
    reveal(wcov); reveal(ids_ok); reveal(cs_ok);
    lemma_p_up(s, u, ids, cs);
    assert(0 <= ids.last() < s.v[u].N);
    assert(ids.drop_last().to_set() =~= ids.to_set().remove(ids.last()));
    lemma_w_remove(s, u, ids.to_set(), ids.last(), s.v[u].N);
    if wpos(s) { lemma_wt_pos(s, u, ids.last()); }
    if ids.len() > 1 { assert(ids[0] != ids[ids.len() - 1]); }
}
pub proof fn lemma_w_end(s: Sh, u: int, ids: Seq<int>, cs: Seq<Set<int>>, m: real)
    requires wcov(s, u, ids, cs, m), ids.len() == 0, wpos(s),
    ensures forall|q: Set<int>| #[trigger] s.rclq(u, q) ==> wof(s, u, q) <= m,
{
    reveal(wcov);
    assert forall|q: Set<int>| #[trigger] s.rclq(u, q) implies wof(s, u, q) <= m by {
        if wof(s, u, q) > m { assert(pend(ids, cs, q)); }
    }
}
// nothing rooted at u is heavier than u and all that may be chosen
pub proof fn lemma_w_most(s: Sh, u: int, q: Set<int>)
    requires s.ok(), wpos(s), 1 <= u < s.n(), s.rclq(u, q),
    ensures wof(s, u, q) <= wt(s, u, s.v[u].spos) + wof(s, u, rset0(s, u, s.v[u].N)),
{
    assert(s.vok(u));
    lemma_w_root(s, u);
    lemma_mid_w(s, u, set![s.v[u].spos], rset0(s, u, s.v[u].N), q);
}
// all candidates have been found not to be adjacent before the end of the list
pub proof fn lemma_far_all(s: Sh, u: int, c: Set<int>, j: int, k: int)
    requires far(s, u, c, j, k).len() >= c.len(), k <= s.v[u].N,
    ensures far(s, u, c, j, s.v[u].N) =~= c, c.difference(far(s, u, c, j, s.v[u].N)) =~= Set::empty(),
{
    let f = far(s, u, c, j, k);
    lemma_len_subset(f, c);
    lemma_subset_equality(f, c);
    assert forall|x: int| #[trigger] c.contains(x) implies far(s, u, c, j, s.v[u].N).contains(x) by { assert(f.contains(x)); }
}
