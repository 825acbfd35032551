@lib
// Depth-first search below a root u, in terms of sets of indices into u's list:
// ids are the members chosen so far, cs[t] what may still be chosen at depth t.
pub open spec fn cand_ok(s: Sh, u: int, ids: Seq<int>, t: int, c: int) -> bool {
    &&& 0 <= c < s.v[u].N && s.rin(u, c)
    &&& forall|i: int| 0 <= i <= t ==> #[trigger] ids[i] != c && s.adj(s.nb(u, ids[i]), s.nb(u, c))
}
#[verifier::opaque]
pub open spec fn ids_ok(s: Sh, u: int, ids: Seq<int>) -> bool {
    &&& ids.len() > 0 ==> ids[0] == s.v[u].spos
    &&& forall|i: int| 0 <= i < ids.len() ==> 0 <= #[trigger] ids[i] < s.v[u].N && s.rin(u, ids[i])
    &&& forall|i: int, j: int| 0 <= i < ids.len() && 0 <= j < ids.len() ==> s.adj(s.nb(u, #[trigger] ids[i]), s.nb(u, #[trigger] ids[j]))
    &&& forall|i: int, j: int| 0 <= i < j < ids.len() ==> #[trigger] ids[i] != #[trigger] ids[j]
}
#[verifier::opaque]
pub open spec fn cs_ok(s: Sh, u: int, ids: Seq<int>, cs: Seq<Set<int>>) -> bool {
    &&& ids.len() == cs.len()
    &&& forall|t: int, c: int| 0 <= t < cs.len() && #[trigger] cs[t].contains(c) ==> cand_ok(s, u, ids, t, c)
}
pub open spec fn among(ids: Seq<int>, t: int, x: int) -> bool { exists|i: int| 0 <= i <= t && #[trigger] ids[i] == x }
// q extends the choice at depth t by candidates of depth t
pub open spec fn cov1(ids: Seq<int>, c: Set<int>, t: int, q: Set<int>) -> bool {
    &&& q.len() > t + 1
    &&& forall|i: int| 0 <= i <= t ==> q.contains(#[trigger] ids[i])
    &&& forall|x: int| #[trigger] q.contains(x) ==> among(ids, t, x) || c.contains(x)
}
// ... or one of the same size is bound to be found at depth t
pub open spec fn cov(ids: Seq<int>, cs: Seq<Set<int>>, t: int, q: Set<int>) -> bool {
    cov1(ids, cs[t], t, q) || (cs[t].len() > 0 && q.len() <= t + 2)
}
pub open spec fn covt(ids: Seq<int>, cs: Seq<Set<int>>, q: Set<int>) -> bool {
    exists|t: int| 0 <= t < ids.len() && #[trigger] cov(ids, cs, t, q)
}
// every clique larger than m is still to be found
#[verifier::opaque]
pub open spec fn covd(s: Sh, u: int, ids: Seq<int>, cs: Seq<Set<int>>, m: int) -> bool {
    forall|q: Set<int>| #[trigger] s.rclq(u, q) && q.len() > m ==> covt(ids, cs, q)
}
// the elements of c not adjacent to element j
pub open spec fn far(s: Sh, u: int, c: Set<int>, j: int, k: int) -> Set<int> {
    c.filter(|x: int| x < k && !s.adj(s.nb(u, j), s.nb(u, x)))
}
pub open spec fn pw(k: nat) -> nat
    decreases k,
{ if k == 0 { 1 } else { 2 * pw((k - 1) as nat) + 1 } }
// bounds the remaining steps
pub open spec fn meas(cs: Seq<Set<int>>) -> nat
    decreases cs.len(),
{ if cs.len() == 0 { 0 } else { meas(cs.drop_last()) + pw(cs.last().len()) } }
pub proof fn lemma_pw_mono(a: nat, b: nat)
    requires a <= b,
    ensures pw(a) <= pw(b), a < b ==> 2 * pw(a) + 1 <= pw(b), pw(a) >= 1,
    decreases b,
{
    if a < b { lemma_pw_mono(a, (b - 1) as nat); } else if b > 0 { lemma_pw_mono((b - 1) as nat, (b - 1) as nat); }
}
pub proof fn lemma_meas_push(cs: Seq<Set<int>>, c2: Set<int>, d: Set<int>)
    requires cs.len() > 0, c2.len() < cs.last().len(), d.len() <= c2.len(),
    ensures meas(cs.update(cs.len() - 1, c2)) < meas(cs), meas(cs.update(cs.len() - 1, c2).push(d)) < meas(cs),
{
    let a = cs.update(cs.len() - 1, c2);
    assert(a.drop_last() =~= cs.drop_last());
    assert(a.push(d).drop_last() =~= a);
    lemma_pw_mono(c2.len(), cs.last().len());
    lemma_pw_mono(d.len(), c2.len());
}
pub proof fn lemma_ids_len(s: Sh, u: int, ids: Seq<int>)
    requires ids_ok(s, u, ids), ids.len() > 0, 0 <= s.v[u].N,
    ensures s.rclq(u, ids.to_set()), ids.to_set().len() == ids.len(), ids.len() <= s.rcount(u, s.v[u].N),
{
    reveal(ids_ok);
    ids.unique_seq_to_set();
    let q = ids.to_set();
    assert forall|i: int| #[trigger] q.contains(i) implies 0 <= i < s.v[u].N && s.rin(u, i) by {
        let a = choose|a: int| 0 <= a < ids.len() && ids[a] == i;
    }
    assert forall|i: int, j: int| #[trigger] q.contains(i) && #[trigger] q.contains(j) implies s.adj(s.nb(u, i), s.nb(u, j)) by {
        let a = choose|a: int| 0 <= a < ids.len() && ids[a] == i;
        let b = choose|b: int| 0 <= b < ids.len() && ids[b] == j;
    }
    assert(q.contains(ids[0]));
    lemma_rclq_bound(s, u, q);
}
// a set made of chosen elements and others has at most that many members
pub proof fn lemma_among(ids: Seq<int>, d: Set<int>, q: Set<int>)
    requires forall|x: int| #[trigger] q.contains(x) ==> among(ids, ids.len() - 1, x) || d.contains(x),
    ensures q.len() <= ids.len() + d.len(),
{
    ids.lemma_cardinality_of_set();
    assert forall|x: int| #[trigger] q.contains(x) implies ids.to_set().union(d).contains(x) by {
        if among(ids, ids.len() - 1, x) {
            let i = choose|i: int| 0 <= i <= ids.len() - 1 && #[trigger] ids[i] == x;
            assert(ids.contains(x));
        }
    }
    lemma_len_subset(q, ids.to_set().union(d));
    lemma_len_union(ids.to_set(), d);
}
pub proof fn lemma_remove_top(s: Sh, u: int, ids: Seq<int>, cs: Seq<Set<int>>, j: int)
    requires ids_ok(s, u, ids), cs_ok(s, u, ids, cs), cs.len() > 0, cs.last().contains(j),
    ensures cs_ok(s, u, ids, cs.update(cs.len() - 1, cs.last().remove(j))), cand_ok(s, u, ids, ids.len() - 1, j), !ids.to_set().contains(j),
        0 <= j < s.v[u].N, cs.last().remove(j).len() + 1 == cs.last().len(), ids.len() == cs.len(),
{
    reveal(cs_ok);
    let t = cs.len() - 1;
    assert(cs[t].contains(j));
    let cs2 = cs.update(t, cs.last().remove(j));
    assert forall|t: int, c: int| 0 <= t < cs2.len() && #[trigger] cs2[t].contains(c) implies cand_ok(s, u, ids, t, c) by { assert(cs[t].contains(c)); }
    if ids.contains(j) { let i = choose|i: int| 0 <= i < ids.len() && ids[i] == j; }
}
// members of a clique that holds j are not far from j
pub proof fn lemma_not_far(s: Sh, u: int, c: Set<int>, j: int, k: int, q: Set<int>)
    requires s.rclq(u, q), q.contains(j),
    ensures forall|x: int| #[trigger] q.contains(x) && c.contains(x) ==> c.difference(far(s, u, c, j, k)).contains(x),
{}
// j is out: no clique with j can beat m
pub proof fn lemma_drop(s: Sh, u: int, ids: Seq<int>, cs: Seq<Set<int>>, j: int, k: int, m: int)
    requires ids_ok(s, u, ids), cs_ok(s, u, ids, cs), cs.len() > 0, cs.last().contains(j), covd(s, u, ids, cs, m),
        ids.len() + 1 + cs.last().remove(j).len() - far(s, u, cs.last().remove(j), j, k).len() <= m,
    ensures covd(s, u, ids, cs.update(cs.len() - 1, cs.last().remove(j)), m),
{
    reveal(covd); reveal(cs_ok);
    let t = cs.len() - 1;
    let c2 = cs.last().remove(j);
    let cs2 = cs.update(t, c2);
    let f = far(s, u, c2, j, k);
    lemma_len_subset(f, c2);
    assert forall|q: Set<int>| #[trigger] s.rclq(u, q) && q.len() > m implies covt(ids, cs2, q) by {
        assert(covt(ids, cs, q));
        let a = choose|a: int| 0 <= a < ids.len() && #[trigger] cov(ids, cs, a, q);
        if a < t {
            assert(cov(ids, cs2, a, q));
        } else {
            if cov1(ids, cs[t], t, q) {
                if q.contains(j) {
                    let d = c2.difference(f).insert(j);
                    lemma_not_far(s, u, c2, j, k, q);
                    assert forall|x: int| #[trigger] q.contains(x) implies among(ids, ids.len() - 1, x) || d.contains(x) by {
                        if cs[t].contains(x) && x != j { assert(c2.contains(x)); }
                    }
                    lemma_among(ids, d, q);
                    lemma_diff_len(c2, f);
                }
                assert(cov(ids, cs2, t, q));
            } else {
                if c2.len() == 0 { assert(f.len() == 0); }
                assert(cov(ids, cs2, t, q));
            }
        }
    }
}
pub proof fn lemma_diff_len(c: Set<int>, f: Set<int>)
    requires f.subset_of(c),
    ensures c.difference(f).len() == c.len() - f.len(),
{
    assert(c =~= c.difference(f).union(f));
    lemma_set_disjoint_lens(c.difference(f), f);
}
// j with no candidates left makes a clique of the largest size that depth can give
pub proof fn lemma_record(s: Sh, u: int, ids: Seq<int>, cs: Seq<Set<int>>, j: int, m: int)
    requires s.ok(), 0 <= u < s.n(), ids_ok(s, u, ids), cs_ok(s, u, ids, cs), cs.len() > 0, cs.last().contains(j), covd(s, u, ids, cs, m),
        cs.last().remove(j).len() == 0, m <= ids.len() + 1,
    ensures covd(s, u, ids, cs.update(cs.len() - 1, cs.last().remove(j)), ids.len() as int + 1),
        s.rclq(u, ids.to_set().insert(j)), ids.to_set().insert(j).len() == ids.len() + 1,
{
    reveal(covd); reveal(cs_ok);
    lemma_remove_top(s, u, ids, cs, j);
    lemma_push_ids(s, u, ids, j);
    lemma_ids_len(s, u, ids.push(j));
    assert(ids.push(j).to_set() =~= ids.to_set().insert(j)) by { lemma_push_set(ids, j); }
    let t = cs.len() - 1;
    let c2 = cs.last().remove(j);
    let cs2 = cs.update(t, c2);
    assert forall|q: Set<int>| #[trigger] s.rclq(u, q) && q.len() > ids.len() + 1 implies covt(ids, cs2, q) by {
        assert(covt(ids, cs, q));
        let a = choose|a: int| 0 <= a < ids.len() && #[trigger] cov(ids, cs, a, q);
        if a < t {
            assert(cov(ids, cs2, a, q));
        } else {
            let d = c2.insert(j);
            assert forall|x: int| #[trigger] q.contains(x) implies among(ids, ids.len() - 1, x) || d.contains(x) by {}
            lemma_among(ids, d, q);
        }
    }
}
pub proof fn lemma_push_set(ids: Seq<int>, j: int)
    ensures ids.push(j).to_set() =~= ids.to_set().insert(j),
{
    let a = ids.push(j);
    assert forall|x: int| #[trigger] a.to_set().contains(x) == ids.to_set().insert(j).contains(x) by {
        if ids.contains(x) { let i = choose|i: int| 0 <= i < ids.len() && ids[i] == x; assert(a[i] == x); }
        if a.contains(x) { let i = choose|i: int| 0 <= i < a.len() && a[i] == x; if i < ids.len() { assert(ids[i] == x); } }
        assert(a[ids.len() as int] == j);
    }
}
pub proof fn lemma_push_ids(s: Sh, u: int, ids: Seq<int>, j: int)
    requires s.ok(), 0 <= u < s.n(), ids_ok(s, u, ids), ids.len() > 0, cand_ok(s, u, ids, ids.len() - 1, j),
    ensures ids_ok(s, u, ids.push(j)),
{
    reveal(ids_ok);
    assert(s.vok(u));
    let a = ids.push(j);
    assert(s.adj(s.nb(u, j), s.nb(u, j))) by {
        let w = s.nb(u, j);
        assert(0 <= w < s.n());
        assert(s.vok(w));
        assert(s.nb(w, s.v[w].spos) == w);
    }
    assert forall|x: int, y: int| 0 <= x < a.len() && 0 <= y < a.len() implies s.adj(s.nb(u, #[trigger] a[x]), s.nb(u, #[trigger] a[y])) by {
        if x < ids.len() && y < ids.len() { assert(a[x] == ids[x] && a[y] == ids[y]); }
        else if x < ids.len() { assert(a[x] == ids[x]); assert(s.adj(s.nb(u, ids[x]), s.nb(u, j))); }
        else if y < ids.len() { assert(a[y] == ids[y]); assert(s.adj(s.nb(u, ids[y]), s.nb(u, j))); }
    }
    assert forall|x: int| 0 <= x < a.len() implies 0 <= #[trigger] a[x] < s.v[u].N && s.rin(u, a[x]) by {}
    assert forall|x: int, y: int| 0 <= x < y < a.len() implies #[trigger] a[x] != #[trigger] a[y] by {
        if y == ids.len() { assert(ids[x] != j); }
    }
}
// go one level deeper with j and the candidates adjacent to it
pub proof fn lemma_deeper(s: Sh, u: int, ids: Seq<int>, cs: Seq<Set<int>>, j: int, k: int, m: int)
    requires s.ok(), 0 <= u < s.n(), ids_ok(s, u, ids), cs_ok(s, u, ids, cs), cs.len() > 0, cs.last().contains(j), covd(s, u, ids, cs, m),
        cs.last().remove(j).len() > 0 || m >= s.v[u].N, k >= s.v[u].N,
    ensures ({
        let c2 = cs.last().remove(j);
        let d = c2.difference(far(s, u, c2, j, k));
        let cs2 = cs.update(cs.len() - 1, c2).push(d);
        let ids2 = ids.push(j);
        &&& ids_ok(s, u, ids2) && cs_ok(s, u, ids2, cs2) && covd(s, u, ids2, cs2, m) && d.len() <= c2.len()
    }),
{
    let t = cs.len() - 1;
    let c2 = cs.last().remove(j);
    let f = far(s, u, c2, j, k);
    let d = c2.difference(f);
    let cs1 = cs.update(t, c2);
    let cs2 = cs1.push(d);
    let ids2 = ids.push(j);
    lemma_remove_top(s, u, ids, cs, j);
    lemma_push_ids(s, u, ids, j);
    lemma_len_subset(d, c2);
    reveal(covd); reveal(cs_ok);
    assert forall|a: int, c: int| 0 <= a < cs2.len() && #[trigger] cs2[a].contains(c) implies cand_ok(s, u, ids2, a, c) by {
        if a <= t {
            assert(cs1[a].contains(c));
            assert(cand_ok(s, u, ids, a, c));
            assert forall|i: int| 0 <= i <= a implies #[trigger] ids2[i] != c && s.adj(s.nb(u, ids2[i]), s.nb(u, c)) by { assert(ids2[i] == ids[i]); }
        } else {
            assert(cs1[t].contains(c));
            assert(cand_ok(s, u, ids, t, c));
            assert(!f.contains(c));
            assert forall|i: int| 0 <= i <= a implies #[trigger] ids2[i] != c && s.adj(s.nb(u, ids2[i]), s.nb(u, c)) by {
                if i <= t { assert(ids2[i] == ids[i]); }
            }
        }
    }
    assert forall|q: Set<int>| #[trigger] s.rclq(u, q) && q.len() > m implies covt(ids2, cs2, q) by {
        if m >= s.v[u].N { assert(s.vok(u)); lemma_rcount(s, u, s.v[u].N); lemma_rclq_bound(s, u, q); }
        assert(covt(ids, cs, q));
        let a = choose|a: int| 0 <= a < ids.len() && #[trigger] cov(ids, cs, a, q);
        if a < t {
            lemma_cov_same(ids, ids2, cs, cs2, a, q);
        } else if cov1(ids, cs[t], t, q) {
            if q.contains(j) {
                if q.len() > t + 2 {
                    lemma_not_far(s, u, c2, j, k, q);
                    assert forall|x: int| #[trigger] q.contains(x) implies among(ids2, t + 1, x) || d.contains(x) by {
                        if among(ids, t, x) { let i = choose|i: int| 0 <= i <= t && #[trigger] ids[i] == x; assert(ids2[i] == x); }
                        else if x == j { assert(ids2[t + 1] == j); }
                        else { assert(c2.contains(x)); }
                    }
                    assert forall|i: int| 0 <= i <= t + 1 implies q.contains(#[trigger] ids2[i]) by { if i <= t { assert(ids2[i] == ids[i]); } }
                    assert(cov(ids2, cs2, t + 1, q));
                } else {
                    assert(cov(ids2, cs2, t, q));
                }
            } else {
                assert forall|x: int| #[trigger] q.contains(x) implies among(ids2, t, x) || c2.contains(x) by {
                    if among(ids, t, x) { let i = choose|i: int| 0 <= i <= t && #[trigger] ids[i] == x; assert(ids2[i] == x); }
                }
                assert forall|i: int| 0 <= i <= t implies q.contains(#[trigger] ids2[i]) by { assert(ids2[i] == ids[i]); }
                assert(cov(ids2, cs2, t, q));
            }
        } else {
            assert(cov(ids2, cs2, t, q));
        }
    }
}
pub proof fn lemma_cov_same(ids: Seq<int>, ids2: Seq<int>, cs: Seq<Set<int>>, cs2: Seq<Set<int>>, a: int, q: Set<int>)
    requires cov(ids, cs, a, q), 0 <= a < ids.len(), 0 <= a < ids2.len(), cs2[a] == cs[a], forall|i: int| 0 <= i <= a ==> #[trigger] ids2[i] == ids[i],
    ensures cov(ids2, cs2, a, q), covt(ids2, cs2, q),
{
    if cov1(ids, cs[a], a, q) {
        assert forall|x: int| #[trigger] q.contains(x) implies among(ids2, a, x) || cs2[a].contains(x) by {
            if among(ids, a, x) { let i = choose|i: int| 0 <= i <= a && #[trigger] ids[i] == x; assert(ids2[i] == x); }
        }
        assert forall|i: int| 0 <= i <= a implies q.contains(#[trigger] ids2[i]) by { assert(ids2[i] == ids[i]); }
    }
    assert(cov(ids2, cs2, a, q));
}
pub proof fn lemma_up(s: Sh, u: int, ids: Seq<int>, cs: Seq<Set<int>>, m: int)
    requires ids_ok(s, u, ids), cs_ok(s, u, ids, cs), cs.len() > 0, cs.last().len() == 0, covd(s, u, ids, cs, m),
    ensures ids_ok(s, u, ids.drop_last()), cs_ok(s, u, ids.drop_last(), cs.drop_last()), covd(s, u, ids.drop_last(), cs.drop_last(), m),
        meas(cs.drop_last()) < meas(cs),
        ids.drop_last().to_set() =~= ids.to_set().remove(ids.last()),
{
    let ids2 = ids.drop_last(); let cs2 = cs.drop_last();
    let t = cs.len() - 1;
    reveal(covd); reveal(cs_ok); reveal(ids_ok);
    lemma_pw_mono(0, 0);
    assert forall|i: int, j: int| 0 <= i < ids2.len() && 0 <= j < ids2.len() implies s.adj(s.nb(u, #[trigger] ids2[i]), s.nb(u, #[trigger] ids2[j])) by {
        assert(ids2[i] == ids[i] && ids2[j] == ids[j]);
    }
    assert forall|a: int, c: int| 0 <= a < cs2.len() && #[trigger] cs2[a].contains(c) implies cand_ok(s, u, ids2, a, c) by {
        assert(cs[a].contains(c));
        assert forall|i: int| 0 <= i <= a implies #[trigger] ids2[i] != c && s.adj(s.nb(u, ids2[i]), s.nb(u, c)) by { assert(ids2[i] == ids[i]); }
    }
    assert forall|q: Set<int>| #[trigger] s.rclq(u, q) && q.len() > m implies covt(ids2, cs2, q) by {
        assert(covt(ids, cs, q));
        let a = choose|a: int| 0 <= a < ids.len() && #[trigger] cov(ids, cs, a, q);
        if a == t {
            assert(cs[t] =~= Set::empty());
            lemma_among(ids, cs[t], q);
        } else {
            lemma_cov_same(ids, ids2, cs, cs2, a, q);
        }
    }
    assert forall|x: int| #[trigger] ids2.to_set().contains(x) == ids.to_set().remove(ids.last()).contains(x) by {
        if ids2.contains(x) { let i = choose|i: int| 0 <= i < ids2.len() && ids2[i] == x; assert(ids[i] == x); assert(ids[t] != x); }
        if ids.contains(x) { let i = choose|i: int| 0 <= i < ids.len() && ids[i] == x; if i < t { assert(ids2[i] == x); } }
    }
}
// what may be chosen at the root
pub open spec fn rset0(s: Sh, u: int, k: int) -> Set<int> { s.rset(u, k).remove(s.v[u].spos) }
pub proof fn lemma_start(s: Sh, u: int, m: int)
    requires s.ok(), 0 <= u < s.n(), m >= 1,
    ensures ({
        let ids = seq![s.v[u].spos]; let cs = seq![rset0(s, u, s.v[u].N)];
        &&& ids_ok(s, u, ids) && cs_ok(s, u, ids, cs) && covd(s, u, ids, cs, m) && ids.to_set() =~= set![s.v[u].spos]
    }),
{
    let ids = seq![s.v[u].spos]; let cs = seq![rset0(s, u, s.v[u].N)];
    reveal(covd); reveal(cs_ok); reveal(ids_ok);
    assert(s.vok(u));
    let p = s.v[u].spos;
    assert(s.adj(u, u)) by { assert(s.nb(u, p) == u); }
    assert forall|t: int, c: int| 0 <= t < cs.len() && #[trigger] cs[t].contains(c) implies cand_ok(s, u, ids, t, c) by {
        assert(s.rset(u, s.v[u].N).contains(c));
        assert(s.adj(u, s.nb(u, c)));
    }
    assert forall|q: Set<int>| #[trigger] s.rclq(u, q) && q.len() > m implies covt(ids, cs, q) by {
        assert forall|x: int| #[trigger] q.contains(x) implies among(ids, 0, x) || cs[0].contains(x) by {
            if x == p { assert(ids[0] == x); }
        }
        assert(cov(ids, cs, 0, q));
    }
    assert(ids.to_set() =~= set![p]) by {
        assert forall|x: int| #[trigger] ids.to_set().contains(x) == set![p].contains(x) by { assert(ids[0] == p); }
    }
}
pub proof fn lemma_covd_end(s: Sh, u: int, ids: Seq<int>, cs: Seq<Set<int>>, m: int)
    requires covd(s, u, ids, cs, m), ids.len() == 0,
    ensures forall|q: Set<int>| #[trigger] s.rclq(u, q) ==> q.len() <= m,
{
    reveal(covd);
    assert forall|q: Set<int>| #[trigger] s.rclq(u, q) implies q.len() <= m by {
        if q.len() > m { assert(covt(ids, cs, q)); }
    }
}
pub proof fn lemma_rset0(s: Sh, u: int, k: int)
    requires 0 <= k,
    ensures rset0(s, u, k + 1) =~= (if s.rin(u, k) && k != s.v[u].spos { rset0(s, u, k).insert(k) } else { rset0(s, u, k) }),
        !rset0(s, u, k).contains(k), rset0(s, u, 0) =~= Set::empty(),
{}
// too few candidates at the root
pub proof fn lemma_root_small(s: Sh, u: int, q: Set<int>)
    requires s.rclq(u, q),
    ensures q.len() <= 1 + rset0(s, u, s.v[u].N).len(),
{
    let p = s.v[u].spos;
    lemma_len_subset(q, rset0(s, u, s.v[u].N).insert(p));
}
// every clique is found from its first member in the order by (number of neighbours, label)
pub proof fn lemma_first(s: Sh, q: Set<int>)
    requires s.ok(), q.len() > 0, forall|a: int| #[trigger] q.contains(a) ==> 0 <= a < s.n(),
    ensures exists|u: int| q.contains(u) && forall|w: int| #[trigger] q.contains(w) && w != u ==> s.later(u, w),
    decreases q.len(),
{
    let x = q.choose();
    let r = q.remove(x);
    if r.len() == 0 {
        assert forall|w: int| #[trigger] q.contains(w) && w != x implies s.later(x, w) by { assert(r.contains(w)); }
    } else {
        lemma_first(s, r);
        let u = choose|u: int| r.contains(u) && forall|w: int| #[trigger] r.contains(w) && w != u ==> s.later(u, w);
        if s.later(u, x) {
            assert forall|w: int| #[trigger] q.contains(w) && w != u implies s.later(u, w) by { if w != x { assert(r.contains(w)); } }
            assert(q.contains(u));
        } else {
            assert forall|w: int| #[trigger] q.contains(w) && w != x implies s.later(x, w) by { if w != u { assert(r.contains(w)); } }
        }
    }
}
pub open spec fn kset(s: Sh, u: int, q: Set<int>) -> Set<int> { Set::range(0, s.v[u].N).filter(|k: int| q.contains(s.nb(u, k))) }
pub open spec fn named(s: Sh, u: int, ks: Set<int>, w: int) -> bool { exists|k: int| #[trigger] ks.contains(k) && s.nb(u, k) == w }
pub proof fn lemma_named(s: Sh, u: int, ks: Set<int>, q: Set<int>)
    requires forall|w: int| #[trigger] q.contains(w) ==> named(s, u, ks, w),
    ensures q.len() <= ks.len(),
    decreases q.len(),
{
    if q.len() > 0 {
        let w = q.choose();
        assert(q.contains(w));
        assert(named(s, u, ks, w));
        let k = choose|k: int| #[trigger] ks.contains(k) && s.nb(u, k) == w;
        assert forall|x: int| #[trigger] q.remove(w).contains(x) implies named(s, u, ks.remove(k), x) by {
            assert(q.contains(x));
            let y = choose|y: int| #[trigger] ks.contains(y) && s.nb(u, y) == x;
            assert(ks.remove(k).contains(y));
        }
        lemma_named(s, u, ks.remove(k), q.remove(w));
    }
}
pub proof fn lemma_owner(s: Sh, q: Set<int>)
    requires s.ok(), s.clq(q), q.len() > 0,
    ensures exists|u: int, k: Set<int>| 1 <= u < s.n() && #[trigger] s.rclq(u, k) && k.len() >= q.len(),
{
    lemma_first(s, q);
    let u = choose|u: int| q.contains(u) && forall|w: int| #[trigger] q.contains(w) && w != u ==> s.later(u, w);
    let ks = kset(s, u, q);
    assert(s.vok(u));
    let p = s.v[u].spos;
    assert(s.nb(u, p) == u);
    assert(ks.contains(p));
    assert forall|i: int| #[trigger] ks.contains(i) implies s.rin(u, i) by {
        if i != p { if i < p { assert(s.nb(u, i) < s.nb(u, p)); } else { assert(s.nb(u, p) < s.nb(u, i)); } assert(q.contains(s.nb(u, i))); }
    }
    assert forall|w: int| #[trigger] q.contains(w) implies named(s, u, ks, w) by {
        assert(s.adj(u, w));
        let k = choose|k: int| 0 <= k < s.v[u].N && #[trigger] s.nb(u, k) == w;
        assert(ks.contains(k));
    }
    lemma_named(s, u, ks, q);
    assert(s.rclq(u, ks));
}
