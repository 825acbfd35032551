@lib
// strictly increasing run a[off..off+n)
pub open spec fn strictly_sorted(a: Seq<u64>, off: int, n: int) -> bool {
    forall|i: int, j: int| off <= i < j < off + n ==> #[trigger] a[i] < #[trigger] a[j]
}
pub open spec fn in_run(a: Seq<u64>, off: int, n: int, x: u64) -> bool {
    exists|i: int| off <= i < off + n && #[trigger] a[i] == x
}
// lexicographic order on pairs (p0[i], p1[i])
pub open spec fn ple(a0: u64, a1: u64, b0: u64, b1: u64) -> bool { a0 < b0 || (a0 == b0 && a1 <= b1) }
pub open spec fn plt(a0: u64, a1: u64, b0: u64, b1: u64) -> bool { a0 < b0 || (a0 == b0 && a1 < b1) }
pub open spec fn sorted2(p0: Seq<u64>, p1: Seq<u64>, s: int, e: int) -> bool {
    forall|i: int, j: int| s <= i <= j < e ==> ple(#[trigger] p0[i], p1[i], #[trigger] p0[j], p1[j])
}
pub open spec fn ssorted2(p0: Seq<u64>, p1: Seq<u64>, s: int, e: int) -> bool {
    forall|i: int, j: int| s <= i < j < e ==> plt(#[trigger] p0[i], p1[i], #[trigger] p0[j], p1[j])
}
pub open spec fn in2(p0: Seq<u64>, p1: Seq<u64>, s: int, e: int, x: u64, y: u64) -> bool {
    exists|i: int| s <= i < e && #[trigger] p0[i] == x && p1[i] == y
}
pub open spec fn same_set2(a0: Seq<u64>, a1: Seq<u64>, s: int, e: int, b0: Seq<u64>, b1: Seq<u64>, t: int, f: int) -> bool {
    forall|x: u64, y: u64| #[trigger] in2(a0, a1, s, e, x, y) == in2(b0, b1, t, f, x, y)
}
// number of positions whose pair satisfies f
pub open spec fn cntf(p0: Seq<u64>, p1: Seq<u64>, s: int, e: int, f: spec_fn(u64, u64) -> bool) -> int
    decreases e - s,
{
    if e <= s { 0 } else { cntf(p0, p1, s, e - 1, f) + (if f(p0[e - 1], p1[e - 1]) { 1int } else { 0int }) }
}
pub open spec fn perm(a0: Seq<u64>, a1: Seq<u64>, b0: Seq<u64>, b1: Seq<u64>, s: int, e: int) -> bool {
    forall|f: spec_fn(u64, u64) -> bool| #[trigger] cntf(b0, b1, s, e, f) == cntf(a0, a1, s, e, f)
}
pub open spec fn frame2(a0: Seq<u64>, a1: Seq<u64>, b0: Seq<u64>, b1: Seq<u64>, s: int, e: int) -> bool {
    same_outside(a0, b0, s, e) && same_outside(a1, b1, s, e)
}
pub proof fn lemma_cntf_eq(a0: Seq<u64>, a1: Seq<u64>, b0: Seq<u64>, b1: Seq<u64>, s: int, e: int, f: spec_fn(u64, u64) -> bool)
    requires forall|i: int| s <= i < e ==> #[trigger] b0[i] == a0[i] && b1[i] == a1[i],
    ensures cntf(b0, b1, s, e, f) == cntf(a0, a1, s, e, f),
    decreases e - s,
{ if s < e { lemma_cntf_eq(a0, a1, b0, b1, s, e - 1, f); assert(b0[e - 1] == a0[e - 1]); } }
pub proof fn lemma_cntf_split(p0: Seq<u64>, p1: Seq<u64>, s: int, m: int, e: int, f: spec_fn(u64, u64) -> bool)
    requires s <= m <= e,
    ensures cntf(p0, p1, s, e, f) == cntf(p0, p1, s, m, f) + cntf(p0, p1, m, e, f),
    decreases e - m,
{ if m < e { lemma_cntf_split(p0, p1, s, m, e - 1, f); } }
pub proof fn lemma_cntf_bound(p0: Seq<u64>, p1: Seq<u64>, s: int, e: int, f: spec_fn(u64, u64) -> bool)
    requires s <= e,
    ensures 0 <= cntf(p0, p1, s, e, f) <= e - s,
    decreases e - s,
{ if s < e { lemma_cntf_bound(p0, p1, s, e - 1, f); } }
pub proof fn lemma_cntf_update(p0: Seq<u64>, p1: Seq<u64>, s: int, e: int, i: int, x: u64, y: u64, f: spec_fn(u64, u64) -> bool)
    requires s <= i < e, 0 <= s, e <= p0.len(), e <= p1.len(),
    ensures cntf(p0.update(i, x), p1.update(i, y), s, e, f) == cntf(p0, p1, s, e, f)
        - (if f(p0[i], p1[i]) { 1int } else { 0int }) + (if f(x, y) { 1int } else { 0int }),
    decreases e - s,
{
    if i == e - 1 {
        lemma_cntf_eq(p0, p1, p0.update(i, x), p1.update(i, y), s, e - 1, f);
    } else {
        lemma_cntf_update(p0, p1, s, e - 1, i, x, y, f);
    }
}
pub open spec fn swp(a: Seq<u64>, i: int, j: int) -> Seq<u64> { a.update(i, a[j]).update(j, a[i]) }
pub proof fn lemma_swap_perm(p0: Seq<u64>, p1: Seq<u64>, s: int, e: int, i: int, j: int)
    requires 0 <= s <= i < e, s <= j < e, e <= p0.len(), e <= p1.len(),
    ensures perm(p0, p1, swp(p0, i, j), swp(p1, i, j), s, e),
        perm(p0, p1, swp(p0, j, i), swp(p1, j, i), s, e),
{
    assert(swp(p0, i, j) =~= swp(p0, j, i)); assert(swp(p1, i, j) =~= swp(p1, j, i));
    assert forall|f: spec_fn(u64, u64) -> bool| #[trigger] cntf(swp(p0, i, j), swp(p1, i, j), s, e, f) == cntf(p0, p1, s, e, f) by {
        lemma_cntf_update(p0, p1, s, e, i, p0[j], p1[j], f);
        lemma_cntf_update(p0.update(i, p0[j]), p1.update(i, p1[j]), s, e, j, p0[i], p1[i], f);
    }
}
pub proof fn lemma_perm_trans(a0: Seq<u64>, a1: Seq<u64>, b0: Seq<u64>, b1: Seq<u64>, c0: Seq<u64>, c1: Seq<u64>, s: int, e: int)
    requires perm(a0, a1, b0, b1, s, e), perm(b0, b1, c0, c1, s, e),
    ensures perm(a0, a1, c0, c1, s, e),
{
    assert forall|f: spec_fn(u64, u64) -> bool| #[trigger] cntf(c0, c1, s, e, f) == cntf(a0, a1, s, e, f) by {
        assert(cntf(b0, b1, s, e, f) == cntf(a0, a1, s, e, f));
    }
}
// a permutation of a part is a permutation of the whole
pub proof fn lemma_perm_widen(a0: Seq<u64>, a1: Seq<u64>, b0: Seq<u64>, b1: Seq<u64>, s: int, e: int, s2: int, e2: int)
    requires perm(a0, a1, b0, b1, s, e), frame2(a0, a1, b0, b1, s, e), 0 <= s2 <= s <= e <= e2, e2 <= a0.len(), e2 <= a1.len(),
    ensures perm(a0, a1, b0, b1, s2, e2),
{
    assert forall|f: spec_fn(u64, u64) -> bool| #[trigger] cntf(b0, b1, s2, e2, f) == cntf(a0, a1, s2, e2, f) by {
        lemma_cntf_split(a0, a1, s2, s, e2, f); lemma_cntf_split(a0, a1, s, e, e2, f);
        lemma_cntf_split(b0, b1, s2, s, e2, f); lemma_cntf_split(b0, b1, s, e, e2, f);
        lemma_cntf_eq(a0, a1, b0, b1, s2, s, f); lemma_cntf_eq(a0, a1, b0, b1, e, e2, f);
        assert(cntf(b0, b1, s, e, f) == cntf(a0, a1, s, e, f));
    }
}
pub proof fn lemma_cntf_exists(p0: Seq<u64>, p1: Seq<u64>, s: int, e: int, f: spec_fn(u64, u64) -> bool)
    requires s <= e,
    ensures cntf(p0, p1, s, e, f) > 0 <==> exists|i: int| s <= i < e && f(#[trigger] p0[i], p1[i]),
    decreases e - s,
{
    if s < e {
        lemma_cntf_exists(p0, p1, s, e - 1, f);
        lemma_cntf_bound(p0, p1, s, e - 1, f);
        if f(p0[e - 1], p1[e - 1]) { }
    }
}
// a permutation keeps any property of all pairs
pub proof fn lemma_perm_all(a0: Seq<u64>, a1: Seq<u64>, b0: Seq<u64>, b1: Seq<u64>, s: int, e: int, f: spec_fn(u64, u64) -> bool)
    requires perm(a0, a1, b0, b1, s, e), s <= e, forall|i: int| s <= i < e ==> f(#[trigger] a0[i], a1[i]),
    ensures forall|i: int| s <= i < e ==> f(#[trigger] b0[i], b1[i]),
{
    let g = |x: u64, y: u64| !f(x, y);
    lemma_cntf_exists(a0, a1, s, e, g); lemma_cntf_exists(b0, b1, s, e, g);
    lemma_cntf_bound(a0, a1, s, e, g);
    assert(cntf(b0, b1, s, e, g) == cntf(a0, a1, s, e, g));
    assert forall|i: int| s <= i < e implies f(#[trigger] b0[i], b1[i]) by {
        if !f(b0[i], b1[i]) { assert(g(b0[i], b1[i])); }
    }
}
pub proof fn lemma_perm_set(a0: Seq<u64>, a1: Seq<u64>, b0: Seq<u64>, b1: Seq<u64>, s: int, e: int)
    requires perm(a0, a1, b0, b1, s, e), s <= e,
    ensures same_set2(a0, a1, s, e, b0, b1, s, e),
{
    assert forall|x: u64, y: u64| #[trigger] in2(a0, a1, s, e, x, y) == in2(b0, b1, s, e, x, y) by {
        let f = |p: u64, q: u64| p == x && q == y;
        lemma_cntf_exists(a0, a1, s, e, f); lemma_cntf_exists(b0, b1, s, e, f);
        assert(cntf(b0, b1, s, e, f) == cntf(a0, a1, s, e, f));
        if in2(a0, a1, s, e, x, y) {
            let i = choose|i: int| s <= i < e && #[trigger] a0[i] == x && a1[i] == y;
            assert(f(a0[i], a1[i]));
            let j = choose|j: int| s <= j < e && f(#[trigger] b0[j], b1[j]);
            assert(b0[j] == x);
        }
        if in2(b0, b1, s, e, x, y) {
            let i = choose|i: int| s <= i < e && #[trigger] b0[i] == x && b1[i] == y;
            assert(f(b0[i], b1[i]));
            let j = choose|j: int| s <= j < e && f(#[trigger] a0[j], a1[j]);
            assert(a0[j] == x);
        }
    }
}
// one more element read by the duplicate remover
pub proof fn lemma_uniq_step(a0: Seq<u64>, a1: Seq<u64>, b0: Seq<u64>, b1: Seq<u64>, c0: Seq<u64>, c1: Seq<u64>, s: int, i: int, r: int, r2: int)
    requires
        same_set2(a0, a1, s, i, b0, b1, s, r + 1), s <= r < i, r2 == r || r2 == r + 1,
        c0[r2] == a0[i], c1[r2] == a1[i],
        r2 == r ==> b0[r] == a0[i] && b1[r] == a1[i],
        forall|k: int| s <= k <= r ==> #[trigger] c0[k] == b0[k] && c1[k] == b1[k],
    ensures same_set2(a0, a1, s, i + 1, c0, c1, s, r2 + 1),
{
    assert forall|x: u64, y: u64| #[trigger] in2(a0, a1, s, i + 1, x, y) == in2(c0, c1, s, r2 + 1, x, y) by {
        assert(in2(a0, a1, s, i, x, y) == in2(b0, b1, s, r + 1, x, y));
        if in2(a0, a1, s, i + 1, x, y) {
            let k = choose|k: int| s <= k < i + 1 && #[trigger] a0[k] == x && a1[k] == y;
            if k == i { assert(c0[r2] == x); } else {
                assert(in2(a0, a1, s, i, x, y));
                let l = choose|l: int| s <= l < r + 1 && #[trigger] b0[l] == x && b1[l] == y;
                assert(c0[l] == x);
            }
        }
        if in2(c0, c1, s, r2 + 1, x, y) {
            let k = choose|k: int| s <= k < r2 + 1 && #[trigger] c0[k] == x && c1[k] == y;
            if k == r2 { assert(a0[i] == x); } else {
                assert(b0[k] == x);
                assert(in2(b0, b1, s, r + 1, x, y));
                let l = choose|l: int| s <= l < i && #[trigger] a0[l] == x && a1[l] == y;
                assert(a0[l] == x);
            }
        }
    }
}
proof fn lemma_shr1(x: u64)
    by(bit_vector)
    ensures x >> 1 == x / 2,
{}

// ---- radix sort: buckets of one 4-bit digit of one key ----
pub open spec fn kyv(x: u64, y: u64, kf: bool) -> u64 { if kf { x } else { y } }
pub open spec fn ky(p0: Seq<u64>, p1: Seq<u64>, kf: bool, i: int) -> u64 { kyv(p0[i], p1[i], kf) }
pub open spec fn dg(x: u64, sh: u64) -> u64 { (x >> sh) & 15u64 }
pub open spec fn hi4(x: u64, sh: u64) -> u64 { (x >> sh) >> 4u64 }
pub open spec fn deq(kf: bool, sh: u64, m: int) -> spec_fn(u64, u64) -> bool { |x: u64, y: u64| dg(kyv(x, y, kf), sh) == m }
pub open spec fn csz(p0: Seq<u64>, p1: Seq<u64>, s: int, e: int, kf: bool, sh: u64, m: int) -> int { cntf(p0, p1, s, e, deq(kf, sh, m)) }
pub open spec fn bst(p0: Seq<u64>, p1: Seq<u64>, s: int, e: int, kf: bool, sh: u64, m: int) -> int
    decreases m,
{ if m <= 0 { s } else { bst(p0, p1, s, e, kf, sh, m - 1) + csz(p0, p1, s, e, kf, sh, m - 1) } }
pub open spec fn dall(p0: Seq<u64>, p1: Seq<u64>, kf: bool, sh: u64, lo: int, hi: int, m: int) -> bool {
    forall|x: int| lo <= x < hi ==> dg(#[trigger] ky(p0, p1, kf, x), sh) == m
}
pub open spec fn okp(kf: bool, sh: u64, mx: u64, h: u64, p: u64) -> spec_fn(u64, u64) -> bool {
    |x: u64, y: u64| hi4(kyv(x, y, kf), sh) == h && (!kf ==> x == p) && hi4(x, mx) == 0 && hi4(y, mx) == 0
}
pub open spec fn allp(p0: Seq<u64>, p1: Seq<u64>, s: int, e: int, f: spec_fn(u64, u64) -> bool) -> bool {
    forall|i: int| s <= i < e ==> f(#[trigger] p0[i], p1[i])
}
pub open spec fn uniform(p0: Seq<u64>, p1: Seq<u64>, s: int, e: int, kf: bool, sh: u64, mx: u64) -> bool {
    exists|h: u64, p: u64| allp(p0, p1, s, e, #[trigger] okp(kf, sh, mx, h, p))
}
pub open spec fn sumto(a: Seq<int>, n: int) -> int
    decreases n,
{ if n <= 0 { 0 } else { sumto(a, n - 1) + a[n - 1] } }
proof fn lemma_sumto_update(a: Seq<int>, n: int, k: int, x: int)
    requires 0 <= k < a.len(), 0 <= n <= a.len(),
    ensures sumto(a.update(k, x), n) == sumto(a, n) + (if k < n { x - a[k] } else { 0 }),
    decreases n,
{ if n > 0 { lemma_sumto_update(a, n - 1, k, x); } }
proof fn lemma_sumto_le(a: Seq<int>, b: Seq<int>, n: int)
    requires forall|k: int| 0 <= k < n ==> #[trigger] a[k] <= b[k],
    ensures sumto(a, n) <= sumto(b, n),
    decreases n,
{ if n > 0 { lemma_sumto_le(a, b, n - 1); assert(a[n - 1] <= b[n - 1]); } }
proof fn lemma_dg(x: u64, sh: u64)
    by(bit_vector)
    ensures dg(x, sh) < 16,
{}
// number of digit classes below 16 adds up to the whole range
proof fn lemma_dsum(p0: Seq<u64>, p1: Seq<u64>, s: int, e: int, kf: bool, sh: u64, m: int)
    requires s < e, 0 <= m,
    ensures bst(p0, p1, s, e, kf, sh, m) == bst(p0, p1, s, e - 1, kf, sh, m) + (if dg(ky(p0, p1, kf, e - 1), sh) < m { 1int } else { 0int }),
    decreases m,
{
    if m > 0 { lemma_dsum(p0, p1, s, e, kf, sh, m - 1); }
}
proof fn lemma_bst_empty(p0: Seq<u64>, p1: Seq<u64>, s: int, kf: bool, sh: u64, m: int)
    ensures bst(p0, p1, s, s, kf, sh, m) == s,
    decreases m,
{ if m > 0 { lemma_bst_empty(p0, p1, s, kf, sh, m - 1); } }
proof fn lemma_bst_top(p0: Seq<u64>, p1: Seq<u64>, s: int, e: int, kf: bool, sh: u64)
    requires s <= e,
    ensures bst(p0, p1, s, e, kf, sh, 16) == e, bst(p0, p1, s, e, kf, sh, 0) == s,
    decreases e - s,
{
    if s < e {
        lemma_bst_top(p0, p1, s, e - 1, kf, sh); lemma_dsum(p0, p1, s, e, kf, sh, 16); lemma_dg(ky(p0, p1, kf, e - 1), sh);
    } else { lemma_bst_empty(p0, p1, s, kf, sh, 16); }
}
proof fn lemma_bst_mono(p0: Seq<u64>, p1: Seq<u64>, s: int, e: int, kf: bool, sh: u64, m: int, n: int)
    requires s <= e, 0 <= m <= n,
    ensures bst(p0, p1, s, e, kf, sh, m) <= bst(p0, p1, s, e, kf, sh, n),
    decreases n - m,
{
    if m < n { lemma_bst_mono(p0, p1, s, e, kf, sh, m, n - 1); lemma_cntf_bound(p0, p1, s, e, deq(kf, sh, n - 1)); }
}
pub open spec fn bpart(b: Seq<int>, s: int, e: int) -> bool {
    &&& b.len() == 17 && b[0] == s && b[16] == e
    &&& forall|m: int, n: int| 0 <= m <= n <= 16 ==> #[trigger] b[m] <= #[trigger] b[n]
}
proof fn lemma_bpart(p0: Seq<u64>, p1: Seq<u64>, s: int, e: int, kf: bool, sh: u64) -> (b: Seq<int>)
    requires s <= e,
    ensures bpart(b, s, e), forall|m: int| 0 <= m <= 16 ==> #[trigger] b[m] == bst(p0, p1, s, e, kf, sh, m),
        forall|m: int| 0 <= m < 16 ==> #[trigger] csz(p0, p1, s, e, kf, sh, m) == b[m + 1] - b[m],
{
    let b = Seq::new(17, |m: int| bst(p0, p1, s, e, kf, sh, m));
    lemma_bst_top(p0, p1, s, e, kf, sh);
    assert forall|m: int, n: int| 0 <= m <= n <= 16 implies #[trigger] b[m] <= #[trigger] b[n] by { lemma_bst_mono(p0, p1, s, e, kf, sh, m, n); }
    b
}
proof fn lemma_locate(b: Seq<int>, s: int, e: int, x: int, n: int) -> (m: int)
    requires bpart(b, s, e), s <= x < e, 0 <= n <= 16, x < b[n],
    ensures 0 <= m < n, b[m] <= x < b[m + 1],
    decreases n,
{
    if n == 0 { 0 } else if b[n - 1] <= x { n - 1 } else { lemma_locate(b, s, e, x, n - 1) }
}
proof fn lemma_cntf_all(p0: Seq<u64>, p1: Seq<u64>, s: int, e: int, f: spec_fn(u64, u64) -> bool)
    requires s <= e, allp(p0, p1, s, e, f),
    ensures cntf(p0, p1, s, e, f) == e - s,
    decreases e - s,
{ if s < e { lemma_cntf_all(p0, p1, s, e - 1, f); assert(f(p0[e - 1], p1[e - 1])); } }
// an element with digit k outside the filled part [lo, d) of its bucket: the bucket has room
proof fn lemma_room(p0: Seq<u64>, p1: Seq<u64>, s: int, e: int, kf: bool, sh: u64, lo: int, d: int, hi: int, j: int, k: int)
    requires
        s <= lo <= d <= hi <= e, s <= j < e, !(lo <= j < d), dg(ky(p0, p1, kf, j), sh) == k,
        dall(p0, p1, kf, sh, lo, d, k), csz(p0, p1, s, e, kf, sh, k) == hi - lo,
    ensures d < hi,
{
    let f = deq(kf, sh, k);
    lemma_cntf_split(p0, p1, s, lo, e, f); lemma_cntf_split(p0, p1, lo, d, e, f);
    assert(allp(p0, p1, lo, d, f)) by {
        assert forall|i: int| lo <= i < d implies f(#[trigger] p0[i], p1[i]) by { assert(dg(ky(p0, p1, kf, i), sh) == k); }
    }
    lemma_cntf_all(p0, p1, lo, d, f);
    lemma_cntf_bound(p0, p1, s, lo, f); lemma_cntf_bound(p0, p1, d, e, f);
    assert(f(p0[j], p1[j]));
    if j < lo { lemma_cntf_exists(p0, p1, s, lo, f); } else { lemma_cntf_exists(p0, p1, d, e, f); }
}
proof fn lemma_hi_cmp(x: u64, y: u64, sh: u64)
    by(bit_vector)
    requires hi4(x, sh) == hi4(y, sh), sh <= 60,
    ensures dg(x, sh) < dg(y, sh) ==> x < y, dg(x, sh) == dg(y, sh) ==> x >> sh == y >> sh,
{}
proof fn lemma_sh_down(x: u64, sh: u64)
    by(bit_vector)
    requires 4 <= sh <= 60,
    ensures hi4(x, sub(sh, 4)) == x >> sh,
{}
proof fn lemma_sh0(x: u64)
    by(bit_vector)
    ensures x >> 0u64 == x,
{}
// the pairs of one bucket satisfy the precondition of the next pass
proof fn lemma_next_uniform(p0: Seq<u64>, p1: Seq<u64>, s: int, e: int, kf: bool, sh: u64, mx: u64, h: u64, p: u64, m: int, kf2: bool, sh2: u64)
    requires
        0 <= s <= e, allp(p0, p1, s, e, okp(kf, sh, mx, h, p)), dall(p0, p1, kf, sh, s, e, m), sh <= 60, mx <= 60,
        sh == 0 ==> kf && !kf2 && sh2 == mx, sh != 0 ==> 4 <= sh && kf2 == kf && sh2 == sh - 4,
    ensures uniform(p0, p1, s, e, kf2, sh2, mx),
{
    let h2 = if sh == 0 { 0u64 } else { ky(p0, p1, kf, s) >> sh };
    let p2 = p0[s];
    assert forall|i: int| s <= i < e implies okp(kf2, sh2, mx, h2, p2)(#[trigger] p0[i], p1[i]) by {
        let f = okp(kf, sh, mx, h, p);
        assert(f(p0[i], p1[i])); assert(f(p0[s], p1[s]));
        assert(dg(ky(p0, p1, kf, i), sh) == m); assert(dg(ky(p0, p1, kf, s), sh) == m);
        lemma_hi_cmp(ky(p0, p1, kf, i), ky(p0, p1, kf, s), sh);
        if sh == 0 { lemma_sh0(p0[i]); lemma_sh0(p0[s]); }
        else { lemma_sh_down(ky(p0, p1, kf, i), sh); }
    }
    assert(allp(p0, p1, s, e, okp(kf2, sh2, mx, h2, p2)));
}
// buckets in digit order, each sorted, of a range with a common high part: the range is sorted
proof fn lemma_buckets_sorted(p0: Seq<u64>, p1: Seq<u64>, s: int, e: int, b: Seq<int>, kf: bool, sh: u64, mx: u64, h: u64, p: u64)
    requires
        0 <= s <= e, bpart(b, s, e), sh <= 60, allp(p0, p1, s, e, okp(kf, sh, mx, h, p)),
        forall|m: int| 0 <= m < 16 ==> dall(p0, p1, kf, sh, #[trigger] b[m], b[m + 1], m),
        forall|m: int| 0 <= m < 16 ==> sorted2(p0, p1, #[trigger] b[m], b[m + 1]),
    ensures sorted2(p0, p1, s, e),
{
    assert forall|i: int, j: int| s <= i <= j < e implies ple(#[trigger] p0[i], p1[i], #[trigger] p0[j], p1[j]) by {
        let mi = lemma_locate(b, s, e, i, 16); let mj = lemma_locate(b, s, e, j, 16);
        if mi == mj { assert(sorted2(p0, p1, b[mi], b[mi + 1])); }
        else {
            if mj < mi { assert(b[mj + 1] <= b[mi]); }
            let f = okp(kf, sh, mx, h, p);
            assert(f(p0[i], p1[i])); assert(f(p0[j], p1[j]));
            assert(dall(p0, p1, kf, sh, b[mi], b[mi + 1], mi)); assert(dall(p0, p1, kf, sh, b[mj], b[mj + 1], mj));
            assert(dg(ky(p0, p1, kf, i), sh) == mi); assert(dg(ky(p0, p1, kf, j), sh) == mj);
            lemma_hi_cmp(ky(p0, p1, kf, i), ky(p0, p1, kf, j), sh);
        }
    }
}
// last digit of the second key: buckets hold equal pairs
proof fn lemma_last_sorted(p0: Seq<u64>, p1: Seq<u64>, s: int, e: int, b: Seq<int>, mx: u64, h: u64, p: u64)
    requires
        0 <= s <= e, bpart(b, s, e), allp(p0, p1, s, e, okp(false, 0, mx, h, p)),
        forall|m: int| 0 <= m < 16 ==> dall(p0, p1, false, 0, #[trigger] b[m], b[m + 1], m),
    ensures sorted2(p0, p1, s, e),
{
    assert forall|m: int| 0 <= m < 16 implies sorted2(p0, p1, #[trigger] b[m], b[m + 1]) by {
        assert forall|i: int, j: int| b[m] <= i <= j < b[m + 1] implies ple(#[trigger] p0[i], p1[i], #[trigger] p0[j], p1[j]) by {
            let f = okp(false, 0, mx, h, p);
            assert(b[0] <= b[m]); assert(b[m + 1] <= b[16]);
            assert(f(p0[i], p1[i])); assert(f(p0[j], p1[j]));
            assert(dall(p0, p1, false, 0, b[m], b[m + 1], m));
            assert(dg(ky(p0, p1, false, i), 0) == m); assert(dg(ky(p0, p1, false, j), 0) == m);
            lemma_hi_cmp(p1[i], p1[j], 0); lemma_sh0(p1[i]); lemma_sh0(p1[j]);
        }
    }
    lemma_buckets_sorted(p0, p1, s, e, b, false, 0, mx, h, p);
}
proof fn lemma_small_hi(x: u64, n: u64, m: u64, r: u64)
    by(bit_vector)
    requires x <= n, m == n >> r, m <= 15, r <= 60,
    ensures hi4(x, r) == 0,
{}
proof fn lemma_shr4(n: u64, r: u64)
    by(bit_vector)
    requires r < 60,
    ensures (n >> r) >> 4u64 == n >> add(r, 4), (n >> r) >> 4u64 == 0 ==> (n >> r) <= 15, n >> 0u64 == n,
{}
proof fn lemma_shr_lt(n: u64, r: u64)
    by(bit_vector)
    requires n < 0x1_0000_0000, r >= 32, r < 64,
    ensures n >> r == 0,
{}
proof fn lemma_shr4_lt(n: u64)
    by(bit_vector)
    ensures n != 0 ==> n >> 4u64 < n,
{}
pub proof fn lemma_same_in2(a0: Seq<u64>, a1: Seq<u64>, b0: Seq<u64>, b1: Seq<u64>, n: int)
    requires forall|i: int| 0 <= i < n ==> #[trigger] a0[i] == b0[i] && a1[i] == b1[i],
    ensures forall|x: u64, y: u64| #[trigger] in2(b0, b1, 0, n, x, y) == in2(a0, a1, 0, n, x, y),
{
    assert forall|x: u64, y: u64| #[trigger] in2(b0, b1, 0, n, x, y) == in2(a0, a1, 0, n, x, y) by {
        if in2(b0, b1, 0, n, x, y) { let i = choose|i: int| 0 <= i < n && #[trigger] b0[i] == x && b1[i] == y; assert(a0[i] == x); }
        if in2(a0, a1, 0, n, x, y) { let i = choose|i: int| 0 <= i < n && #[trigger] a0[i] == x && a1[i] == y; assert(b0[i] == x); }
    }
}
// the digit positions filled so far during the in-place distribution
pub open spec fn filled(starts: Seq<u64>, b: Seq<int>, i: int, j: int) -> Seq<int> {
    Seq::new(16, |m: int| if m < i { b[m + 1] } else if m == i { j } else { starts[m] as int })
}
pub open spec fn dist(p0: Seq<u64>, p1: Seq<u64>, kf: bool, sh: u64, b: Seq<int>, d: Seq<int>) -> bool {
    &&& d.len() == 16
    &&& forall|m: int| 0 <= m < 16 ==> b[m] <= #[trigger] d[m] <= b[m + 1]
    &&& forall|m: int| 0 <= m < 16 ==> dall(p0, p1, kf, sh, b[m], #[trigger] d[m], m)
}

// facts fixed for one call of the radix sort
pub open spec fn rctx(o0: Seq<u64>, o1: Seq<u64>, s: int, e: int, kf: bool, sh: u64, mx: u64, h: u64, pv: u64, b: Seq<int>) -> bool {
    &&& 0 <= s <= e <= o0.len() && o1.len() == o0.len() && o0.len() < 0x1_0000_0000_0000
    &&& sh <= 60 && mx <= 60 && sh % 4 == 0 && mx % 4 == 0
    &&& allp(o0, o1, s, e, okp(kf, sh, mx, h, pv))
    &&& bpart(b, s, e)
    &&& forall|m: int| 0 <= m < 16 ==> #[trigger] csz(o0, o1, s, e, kf, sh, m) == b[m + 1] - b[m]
}
pub open spec fn rcur(o0: Seq<u64>, o1: Seq<u64>, p0: Seq<u64>, p1: Seq<u64>, s: int, e: int) -> bool {
    p0.len() == o0.len() && p1.len() == o1.len() && frame2(o0, o1, p0, p1, s, e) && perm(o0, o1, p0, p1, s, e)
}
proof fn lemma_dist_room(o0: Seq<u64>, o1: Seq<u64>, p0: Seq<u64>, p1: Seq<u64>, s: int, e: int, kf: bool, sh: u64, mx: u64, h: u64, pv: u64, b: Seq<int>, starts: Seq<u64>, i: int, j: int)
    requires rctx(o0, o1, s, e, kf, sh, mx, h, pv, b), rcur(o0, o1, p0, p1, s, e), 0 <= i < 16, b[i] <= j < b[i + 1],
        dist(p0, p1, kf, sh, b, filled(starts, b, i, j)),
    ensures s <= j < e, ({
        let k = dg(ky(p0, p1, kf, j), sh) as int;
        0 <= k < 16 && (k != i ==> k > i && s <= b[k] <= starts[k] < b[k + 1] <= e)
    }),
        sumto(filled(starts, b, i, j), 16) <= sumto(tops(b), 16),
{
    let d = filled(starts, b, i, j); let tp = tops(b);
    assert(b[0] <= b[i]); assert(b[i + 1] <= b[16]); assert(b[i] <= d[i]);
    lemma_dg(ky(p0, p1, kf, j), sh);
    assert forall|m: int| 0 <= m < 16 implies #[trigger] d[m] <= tp[m] by { }
    lemma_sumto_le(d, tp, 16);
    let kk = dg(ky(p0, p1, kf, j), sh) as int;
    if kk != i {
        assert(b[kk] <= d[kk] <= b[kk + 1]); assert(b[0] <= b[kk]); assert(b[kk + 1] <= b[16]);
        if kk < i { assert(b[kk + 1] <= b[i]); } else { assert(b[i + 1] <= b[kk]); }
        assert(cntf(p0, p1, s, e, deq(kf, sh, kk)) == cntf(o0, o1, s, e, deq(kf, sh, kk)));
        assert(b[kk + 1] - b[kk] == csz(o0, o1, s, e, kf, sh, kk));
        assert(dall(p0, p1, kf, sh, b[kk], d[kk], kk));
        lemma_room(p0, p1, s, e, kf, sh, b[kk], d[kk], b[kk + 1], j, kk);
    }
}
proof fn lemma_dist_stay(p0: Seq<u64>, p1: Seq<u64>, kf: bool, sh: u64, b: Seq<int>, starts: Seq<u64>, i: int, j: int)
    requires dist(p0, p1, kf, sh, b, filled(starts, b, i, j)), 0 <= i < 16, b[i] <= j < b[i + 1], dg(ky(p0, p1, kf, j), sh) == i,
    ensures dist(p0, p1, kf, sh, b, filled(starts, b, i, j + 1)),
        sumto(filled(starts, b, i, j + 1), 16) == sumto(filled(starts, b, i, j), 16) + 1,
        sumto(filled(starts, b, i, j + 1), 16) <= sumto(tops(b), 16),
{
    let d = filled(starts, b, i, j); let d2 = filled(starts, b, i, j + 1);
    assert(d2 =~= d.update(i, j + 1));
    lemma_sumto_update(d, 16, i, j + 1);
    assert forall|m: int| 0 <= m < 16 implies dall(p0, p1, kf, sh, b[m], #[trigger] d2[m], m) by { assert(dall(p0, p1, kf, sh, b[m], d[m], m)); }
    assert forall|m: int| 0 <= m < 16 implies b[m] <= #[trigger] d2[m] <= b[m + 1] by { assert(b[m] <= d[m] <= b[m + 1]); }
    assert forall|m: int| 0 <= m < 16 implies #[trigger] d2[m] <= tops(b)[m] by { }
    lemma_sumto_le(d2, tops(b), 16);
}
proof fn lemma_dist_swap(o0: Seq<u64>, o1: Seq<u64>, b0: Seq<u64>, b1: Seq<u64>, p0: Seq<u64>, p1: Seq<u64>, s: int, e: int, kf: bool, sh: u64, mx: u64, h: u64, pv: u64, b: Seq<int>, st: Seq<u64>, st2: Seq<u64>, i: int, j: int, k: int)
    requires rctx(o0, o1, s, e, kf, sh, mx, h, pv, b), rcur(o0, o1, b0, b1, s, e), 0 <= i < k < 16, b[i] <= j < b[i + 1],
        dist(b0, b1, kf, sh, b, filled(st, b, i, j)), dg(ky(b0, b1, kf, j), sh) == k, st[k] < b[k + 1],
        st.len() == 16, st2.len() == 16, st2[k] == st[k] + 1, forall|m: int| 0 <= m < 16 && m != k ==> #[trigger] st2[m] == st[m],
        p0 == swp(b0, j, st[k] as int), p1 == swp(b1, j, st[k] as int),
    ensures rcur(o0, o1, p0, p1, s, e), dist(p0, p1, kf, sh, b, filled(st2, b, i, j)),
        sumto(filled(st2, b, i, j), 16) == sumto(filled(st, b, i, j), 16) + 1, sumto(filled(st2, b, i, j), 16) <= sumto(tops(b), 16),
{
    let d = filled(st, b, i, j); let d2 = filled(st2, b, i, j);
    let q = d[k];
    assert(b[k] <= d[k] <= b[k + 1]); assert(b[0] <= b[k]); assert(b[k + 1] <= b[16]); assert(b[0] <= b[i]); assert(b[i + 1] <= b[16]);
    assert(b[i + 1] <= b[k]);
    assert(d2 =~= d.update(k, q + 1));
    lemma_sumto_update(d, 16, k, q + 1);
    lemma_swap_perm(b0, b1, s, e, j, q);
    lemma_perm_trans(o0, o1, b0, b1, p0, p1, s, e);
    assert forall|m: int| 0 <= m < 16 implies dall(p0, p1, kf, sh, b[m], #[trigger] d2[m], m) by {
        assert(dall(b0, b1, kf, sh, b[m], d[m], m));
        assert(b[m] <= d[m] <= b[m + 1]);
        if m < k { assert(b[m + 1] <= b[k]); } else if m > k { assert(b[k + 1] <= b[m]); }
        if m < i { assert(b[m + 1] <= b[i]); } else if m > i { assert(b[i + 1] <= b[m]); }
        assert forall|x: int| b[m] <= x < d2[m] implies dg(#[trigger] ky(p0, p1, kf, x), sh) == m by {
            assert(0 <= b[m]) by { assert(b[0] <= b[m]); } assert(b[m + 1] <= b[16]);
            if m == k && x == q { assert(ky(p0, p1, kf, x) == ky(b0, b1, kf, j)); }
            else { assert(ky(p0, p1, kf, x) == ky(b0, b1, kf, x)); }
        }
    }
    assert forall|m: int| 0 <= m < 16 implies b[m] <= #[trigger] d2[m] <= b[m + 1] by { assert(b[m] <= d[m] <= b[m + 1]); }
    assert forall|m: int| 0 <= m < 16 implies #[trigger] d2[m] <= tops(b)[m] by { }
    lemma_sumto_le(d2, tops(b), 16);
}
pub open spec fn tops(b: Seq<int>) -> Seq<int> { Seq::new(16, |m: int| b[m + 1]) }
pub open spec fn bdone(p0: Seq<u64>, p1: Seq<u64>, kf: bool, sh: u64, b: Seq<int>) -> bool {
    forall|m: int| 0 <= m < 16 ==> dall(p0, p1, kf, sh, #[trigger] b[m], b[m + 1], m)
}
pub open spec fn bsorted(p0: Seq<u64>, p1: Seq<u64>, b: Seq<int>, i: int) -> bool {
    forall|m: int| 0 <= m < i ==> sorted2(p0, p1, #[trigger] b[m], b[m + 1])
}
// bucket mi of (b0,b1) was rearranged into sorted order
proof fn lemma_bucket_step(o0: Seq<u64>, o1: Seq<u64>, b0: Seq<u64>, b1: Seq<u64>, p0: Seq<u64>, p1: Seq<u64>, s: int, e: int, kf: bool, sh: u64, mx: u64, h: u64, pv: u64, b: Seq<int>, mi: int)
    requires rctx(o0, o1, s, e, kf, sh, mx, h, pv, b), rcur(o0, o1, b0, b1, s, e), 0 <= mi < 16,
        allp(b0, b1, s, e, okp(kf, sh, mx, h, pv)), bdone(b0, b1, kf, sh, b), bsorted(b0, b1, b, mi),
        p0.len() == b0.len(), p1.len() == b1.len(), frame2(b0, b1, p0, p1, b[mi], b[mi + 1]), perm(b0, b1, p0, p1, b[mi], b[mi + 1]),
        sorted2(p0, p1, b[mi], b[mi + 1]),
    ensures rcur(o0, o1, p0, p1, s, e), allp(p0, p1, s, e, okp(kf, sh, mx, h, pv)), bdone(p0, p1, kf, sh, b), bsorted(p0, p1, b, mi + 1),
{
    let lo = b[mi]; let hi = b[mi + 1];
    assert(b[0] <= lo <= hi <= b[16]);
    lemma_perm_widen(b0, b1, p0, p1, lo, hi, s, e);
    lemma_perm_trans(o0, o1, b0, b1, p0, p1, s, e);
    lemma_perm_all(b0, b1, p0, p1, s, e, okp(kf, sh, mx, h, pv));
    let f = deq(kf, sh, mi);
    assert(dall(b0, b1, kf, sh, b[mi], b[mi + 1], mi));
    assert forall|x: int| lo <= x < hi implies f(#[trigger] b0[x], b1[x]) by { assert(dg(ky(b0, b1, kf, x), sh) == mi); }
    lemma_perm_all(b0, b1, p0, p1, lo, hi, f);
    assert forall|m: int| 0 <= m < 16 implies dall(p0, p1, kf, sh, #[trigger] b[m], b[m + 1], m) by {
        if m == mi {
            assert forall|x: int| b[m] <= x < b[m + 1] implies dg(#[trigger] ky(p0, p1, kf, x), sh) == m by { assert(f(p0[x], p1[x])); }
        } else {
            assert(dall(b0, b1, kf, sh, b[m], b[m + 1], m));
            if m < mi { assert(b[m + 1] <= lo); } else { assert(hi <= b[m]); }
            assert(b[0] <= b[m]); assert(b[m + 1] <= b[16]);
            assert forall|x: int| b[m] <= x < b[m + 1] implies dg(#[trigger] ky(p0, p1, kf, x), sh) == m by {
                assert(ky(p0, p1, kf, x) == ky(b0, b1, kf, x));
            }
        }
    }
    assert forall|m: int| 0 <= m < mi + 1 implies sorted2(p0, p1, #[trigger] b[m], b[m + 1]) by {
        if m < mi { assert(sorted2(b0, b1, b[m], b[m + 1])); assert(b[m + 1] <= lo); assert(b[0] <= b[m]); }
    }
}

@fn binary_find(a, N, val, loc)
@locals u64 beg, u64 end
@requires
    1 <= N, a_off + N <= a@.len() < 0x1_0000_0000_0000, strictly_sorted(a@, a_off as int, N as int),
@ensures
    *final(loc) < N,
    (r == FOUND) == in_run(a@, a_off as int, N as int, val),
    r == FOUND || r == NOT_FOUND,
    r == FOUND ==> a@[a_off + *final(loc)] == val,
    forall|i: int| a_off <= i < a_off + *final(loc) ==> #[trigger] a@[i] < val,
@loop 1
@invariant
    1 <= N, a_off + N <= a@.len() < 0x1_0000_0000_0000, strictly_sorted(a@, a_off as int, N as int),
    beg <= N, end < N, beg <= end + 1,
    a@[a_off as int] <= val, val <= a@[a_off + N - 1],
    forall|i: int| a_off <= i < a_off + beg ==> #[trigger] a@[i] < val,
    forall|i: int| a_off + end < i < a_off + N ==> #[trigger] a@[i] > val,
    beg > end ==> *loc < N && *loc <= beg,
@loop_decreases
    end + 1 - beg
@at loop 1 begin
    proof { lemma_shr1((end - beg) as u64); }

@fn insertionSort(p0, p1, start, end)
@locals u64 i, u64 j
@requires
    start <= end <= old(p0)@.len(), old(p1)@.len() == old(p0)@.len(), old(p0)@.len() < 0x1_0000_0000_0000,
@ensures
    frame2(old(p0)@, old(p1)@, final(p0)@, final(p1)@, start as int, end as int),
    perm(old(p0)@, old(p1)@, final(p0)@, final(p1)@, start as int, end as int),
    sorted2(final(p0)@, final(p1)@, start as int, end as int),
@loop 1
@invariant
    start < i, start == end || i <= end, end <= p0@.len(), p1@.len() == p0@.len(), old(p1)@.len() == old(p0)@.len(), p0@.len() < 0x1_0000_0000_0000,
    start <= end,
    frame2(old(p0)@, old(p1)@, p0@, p1@, start as int, end as int),
    perm(old(p0)@, old(p1)@, p0@, p1@, start as int, end as int),
    start < end ==> sorted2(p0@, p1@, start as int, i as int),
@loop_decreases
    end - i
@loop 2
@invariant
    start < i < end, start <= j <= i, end <= p0@.len(), p1@.len() == p0@.len(), old(p1)@.len() == old(p0)@.len(),
    frame2(old(p0)@, old(p1)@, p0@, p1@, start as int, end as int),
    perm(old(p0)@, old(p1)@, p0@, p1@, start as int, end as int),
    forall|a: int, b: int| start <= a <= b <= i && b != j ==> ple(#[trigger] p0@[a], p1@[a], #[trigger] p0@[b], p1@[b]),
@loop_decreases
    j
@at loop 2 begin
    let ghost b0 = p0@; let ghost b1 = p1@;
    proof { lemma_swap_perm(b0, b1, start as int, end as int, j as int, j - 1); }
@at loop 2 end
    proof {
        assert(p0@ =~= swp(b0, j + 1, j as int)); assert(p1@ =~= swp(b1, j + 1, j as int));
        lemma_perm_trans(old(p0)@, old(p1)@, b0, b1, p0@, p1@, start as int, end as int);
    }

@fn modUnique(p0, p1, start, end)
@locals u64 result
@requires
    start <= end <= old(p0)@.len(), old(p1)@.len() == old(p0)@.len(), old(p0)@.len() < 0x1_0000_0000_0000,
    sorted2(old(p0)@, old(p1)@, start as int, end as int),
@ensures
    start <= r <= end, start < end ==> start < r,
    final(p0)@.len() == old(p0)@.len(), final(p1)@.len() == old(p1)@.len(),
    forall|k: int| 0 <= k < start ==> final(p0)@[k] == old(p0)@[k] && final(p1)@[k] == old(p1)@[k],
    ssorted2(final(p0)@, final(p1)@, start as int, r as int),
    same_set2(old(p0)@, old(p1)@, start as int, end as int, final(p0)@, final(p1)@, start as int, r as int),
@loop 1
@invariant_except_break
    start_0 <= result <= start < end <= p0@.len(),
    forall|k: int| start < k < end ==> #[trigger] p0@[k] == old(p0)@[k] && p1@[k] == old(p1)@[k],
    p0@[result as int] == old(p0)@[start as int], p1@[result as int] == old(p1)@[start as int],
    same_set2(old(p0)@, old(p1)@, start_0 as int, start + 1, p0@, p1@, start_0 as int, result + 1),
@invariant
    start_0 <= result <= start, start_0 <= end <= p0@.len(), p1@.len() == p0@.len(), p0@.len() == old(p0)@.len(), old(p1)@.len() == old(p0)@.len(),
    p0@.len() < 0x1_0000_0000_0000,
    sorted2(old(p0)@, old(p1)@, start_0 as int, end as int),
    forall|k: int| 0 <= k < start_0 ==> p0@[k] == old(p0)@[k] && p1@[k] == old(p1)@[k],
    ssorted2(p0@, p1@, start_0 as int, result + 1),
@loop_ensures
    start == end,
    start_0 <= result < end <= p0@.len(), p1@.len() == p0@.len(), p0@.len() == old(p0)@.len(),
    forall|k: int| 0 <= k < start_0 ==> p0@[k] == old(p0)@[k] && p1@[k] == old(p1)@[k],
    ssorted2(p0@, p1@, start_0 as int, result + 1),
    same_set2(old(p0)@, old(p1)@, start_0 as int, end as int, p0@, p1@, start_0 as int, result + 1),
@loop_decreases
    end - start
@at loop 1 begin
    let ghost b0 = p0@; let ghost b1 = p1@; let ghost rs = result as int;
    proof { assert(ple(old(p0)@[start - 1], old(p1)@[start - 1], old(p0)@[start as int], old(p1)@[start as int])); }
@at loop 1 end
    proof { lemma_uniq_step(old(p0)@, old(p1)@, b0, b1, p0@, p1@, start_0 as int, start as int, rs, result as int); }

@fn clean_edges(n_vert, edges)
@locals u64 m, u64 radix_shift
@requires
    1 <= n_vert < 0x1_0000_0000, old(edges).first@.len() == old(edges).second@.len(), old(edges).first@.len() < 0x1_0000_0000_0000,
    forall|i: int| 0 <= i < old(edges).first@.len() ==> #[trigger] old(edges).first@[i] <= n_vert && old(edges).second@[i] <= n_vert,
@ensures
    final(edges).first@.len() == final(edges).second@.len(), final(edges).first@.len() <= old(edges).first@.len(),
    ssorted2(final(edges).first@, final(edges).second@, 0, final(edges).first@.len() as int),
    same_set2(old(edges).first@, old(edges).second@, 0, old(edges).first@.len() as int,
        final(edges).first@, final(edges).second@, 0, final(edges).first@.len() as int),

@loop 1
@invariant
    1 <= n_vert < 0x1_0000_0000, radix_shift <= 36, radix_shift % 4 == 0,
    radix_shift == 0 ==> m == n_vert,
    m == n_vert >> radix_shift,
    m != 0 ==> radix_shift < 32,
    radix_shift > 0 ==> radix_shift - 4 <= 60 && (n_vert >> (radix_shift - 4) as u64) != 0 && m == (n_vert >> (radix_shift - 4) as u64) >> 4u64,
@loop_decreases
    m
@at begin
    proof { lemma_sh0(n_vert); }
@at loop 1 begin
    proof { if radix_shift >= 32 { lemma_shr_lt(n_vert, radix_shift); } lemma_shr4(n_vert, radix_shift); lemma_shr4_lt(m); }
    let ghost m_b = m;
@at loop 1 end
    proof { if radix_shift >= 32 { lemma_shr_lt(n_vert, radix_shift); } }
@at before /radixSort/
    proof {
        let f0 = old(edges).first@; let f1 = old(edges).second@;
        lemma_shr4(n_vert, radix_shift);
        assert(allp(f0, f1, 0, f0.len() as int, okp(true, radix_shift, radix_shift, 0, 0))) by {
            assert forall|i: int| 0 <= i < f0.len() implies okp(true, radix_shift, radix_shift, 0, 0)(#[trigger] f0[i], f1[i]) by {
                lemma_small_hi(f0[i], n_vert, n_vert >> radix_shift, radix_shift);
                lemma_small_hi(f1[i], n_vert, n_vert >> radix_shift, radix_shift);
            }
        }
    }
@at before /modUnique/
    let ghost e0 = edges.first@; let ghost e1 = edges.second@;
    proof { lemma_perm_set(old(edges).first@, old(edges).second@, e0, e1, 0, e0.len() as int); }
@at after /modUnique/
    let ghost g0 = edges.first@; let ghost g1 = edges.second@;
@at end
    proof {
        lemma_same_in2(g0, g1, edges.first@, edges.second@, m as int);
        assert forall|x: u64, y: u64| #[trigger] in2(old(edges).first@, old(edges).second@, 0, old(edges).first@.len() as int, x, y)
            == in2(edges.first@, edges.second@, 0, m as int, x, y) by {
            assert(in2(e0, e1, 0, e0.len() as int, x, y) == in2(g0, g1, 0, m as int, x, y));
        }
    }

@fn radixSort(p0, p1, start, end, shift, key_first, max_shift)
@locals u64 i, u64 j, u64 k, u64* p
@requires
    start <= end <= old(p0)@.len(), old(p1)@.len() == old(p0)@.len(), old(p0)@.len() < 0x1_0000_0000_0000,
    shift <= 60, max_shift <= 60, shift % 4 == 0, max_shift % 4 == 0,
    uniform(old(p0)@, old(p1)@, start as int, end as int, key_first, shift, max_shift),
@ensures
    frame2(old(p0)@, old(p1)@, final(p0)@, final(p1)@, start as int, end as int),
    perm(old(p0)@, old(p1)@, final(p0)@, final(p1)@, start as int, end as int),
    sorted2(final(p0)@, final(p1)@, start as int, end as int),
@decreases
    (if key_first { 1int } else { 0int }), shift
@at begin
    let ghost s = start as int; let ghost e = end as int; let ghost o0 = old(p0)@; let ghost o1 = old(p1)@;
    let ghost (h, pv) = choose|h: u64, p: u64| allp(o0, o1, s, e, #[trigger] okp(key_first_0, shift_0, max_shift, h, p));
    let ghost b: Seq<int> = lemma_bpart(o0, o1, s, e, key_first_0, shift_0);
    let ghost mut t0 = o0; let ghost mut t1 = o1;
@loop 1
@invariant
    rctx(o0, o1, s, e, key_first_0, shift_0, max_shift, h, pv, b), s == start, e == end, o0 == old(p0)@, o1 == old(p1)@,
    start <= i <= end, p0@ == o0, p1@ == o1, key_first == key_first_0, shift == shift_0, p_sel == key_first,
    forall|m: int| 0 <= m < 16 ==> #[trigger] ends@[m] == csz(o0, o1, s, i as int, key_first, shift, m) && ends@[m] <= i - start,
@loop_decreases
    end - i
@at loop 1 begin
    proof { lemma_dg(ky(o0, o1, key_first, i as int), shift); }
    let ghost pe = ends@;
@at loop 1 end
    proof {
        assert forall|m: int| 0 <= m < 16 implies #[trigger] ends@[m] == csz(o0, o1, s, i as int, key_first, shift, m) && ends@[m] <= i - start by {
            assert(pe[m] == csz(o0, o1, s, i - 1, key_first, shift, m));
        }
    }
@loop 2
@invariant
    rctx(o0, o1, s, e, key_first_0, shift_0, max_shift, h, pv, b), s == start, e == end, o0 == old(p0)@, o1 == old(p1)@,
    1 <= i <= 16, p0@ == o0, p1@ == o1,
    forall|m: int| 0 <= m < i ==> #[trigger] starts@[m] == b[m] && ends@[m] == b[m + 1],
    forall|m: int| i <= m < 16 ==> #[trigger] ends@[m] == csz(o0, o1, s, e, key_first_0, shift_0, m) && ends@[m] <= end,
@loop_decreases
    16 - i
@at loop 2 begin
    proof { assert(starts@[i - 1] == b[i - 1]); assert(ends@[i - 1] == b[i as int]); assert(b[i as int] <= b[16]); assert(b[i + 1] - b[i as int] == csz(o0, o1, s, e, key_first_0, shift_0, i as int)); }
@at loop 2 end
    proof { assert forall|m: int| 0 <= m < i implies #[trigger] starts@[m] == b[m] && ends@[m] == b[m + 1] by { if m < i - 1 { assert(sb[m] == b[m]); } } }
@at loop 2 begin
    let ghost sb = starts@;
@at loop 2 before
    proof { assert(b[1] - b[0] == csz(o0, o1, s, e, key_first_0, shift_0, 0)); }
@loop 3
@invariant
    rctx(o0, o1, s, e, key_first_0, shift_0, max_shift, h, pv, b), s == start, e == end, o0 == old(p0)@, o1 == old(p1)@,
    0 <= i <= 16, key_first == key_first_0, shift == shift_0, p_sel == key_first, rcur(o0, o1, p0@, p1@, s, e),
    forall|m: int| 0 <= m < 16 ==> #[trigger] ends@[m] == b[m + 1],
    i < 16 ==> dist(p0@, p1@, key_first_0, shift_0, b, filled(starts@, b, i as int, starts@[i as int] as int)),
    i == 16 ==> dist(p0@, p1@, key_first_0, shift_0, b, filled(starts@, b, 16, 0)),
@loop_decreases
    16 - i
@loop 4
@invariant
    rctx(o0, o1, s, e, key_first_0, shift_0, max_shift, h, pv, b), s == start, e == end, o0 == old(p0)@, o1 == old(p1)@,
    0 <= i < 16, b[i as int] <= starts@[i as int] <= j <= b[i + 1], key_first == key_first_0, shift == shift_0, p_sel == key_first, rcur(o0, o1, p0@, p1@, s, e),
    forall|m: int| 0 <= m < 16 ==> #[trigger] ends@[m] == b[m + 1],
    dist(p0@, p1@, key_first_0, shift_0, b, filled(starts@, b, i as int, j as int)),
@loop_decreases
    sumto(tops(b), 16) - sumto(filled(starts@, b, i as int, j as int), 16)
@at loop 4 begin
    let ghost b0 = p0@; let ghost b1 = p1@; let ghost st = starts@; let ghost jb = j as int;
    proof { lemma_dist_room(o0, o1, p0@, p1@, s, e, key_first_0, shift_0, max_shift, h, pv, b, starts@, i as int, j as int); }
@at loop 4 end
    proof {
        if k == i { lemma_dist_stay(p0@, p1@, key_first_0, shift_0, b, starts@, i as int, jb); }
        else {
            assert(p0@ =~= swp(b0, jb, st[k as int] as int)); assert(p1@ =~= swp(b1, jb, st[k as int] as int));
            lemma_dist_swap(o0, o1, b0, b1, p0@, p1@, s, e, key_first_0, shift_0, max_shift, h, pv, b, st, starts@, i as int, jb, k as int);
        }
    }
@at loop 3 begin
    proof { let d = filled(starts@, b, i as int, starts@[i as int] as int); assert(b[i as int] <= d[i as int] <= b[i + 1]); }
@at loop 3 end
    proof {
        let d = filled(starts@, b, i - 1, j as int);
        let d2 = if i < 16 { filled(starts@, b, i as int, starts@[i as int] as int) } else { filled(starts@, b, 16, 0) };
        assert(d2 =~= d);
    }
@at loop 3 before
    proof {
        assert(perm(o0, o1, p0@, p1@, s, e));
        let d = filled(starts@, b, 0, starts@[0] as int);
        assert forall|m: int| 0 <= m < 16 implies b[m] <= #[trigger] d[m] <= b[m + 1] by { assert(starts@[m] == b[m]); assert(b[m] <= b[m + 1]); }
        assert forall|m: int| 0 <= m < 16 implies dall(p0@, p1@, key_first_0, shift_0, b[m], #[trigger] d[m], m) by { assert(starts@[m] == b[m]); }
        assert forall|m: int| 0 <= m < 16 implies #[trigger] ends@[m] == b[m + 1] by { assert(starts@[m] == b[m]); }
    }
@at loop 3 after
    proof {
        t0 = p0@; t1 = p1@;
        lemma_perm_all(o0, o1, t0, t1, s, e, okp(key_first_0, shift_0, max_shift, h, pv));
        let d = filled(starts@, b, 16, 0);
        assert forall|m: int| 0 <= m < 16 implies dall(p0@, p1@, key_first_0, shift_0, #[trigger] b[m], b[m + 1], m) by {
            assert(dall(p0@, p1@, key_first_0, shift_0, b[m], d[m], m));
        }
        if shift == 0 && !key_first { lemma_last_sorted(t0, t1, s, e, b, max_shift, h, pv); }
    }
@loop 5
@invariant
    rctx(o0, o1, s, e, key_first_0, shift_0, max_shift, h, pv, b), s == start, e == end, o0 == old(p0)@, o1 == old(p1)@,
    1 <= i <= 16, p0@ == t0, p1@ == t1,
    forall|m: int| 0 <= m < i ==> #[trigger] starts@[m] == b[m],
    forall|m: int| 0 <= m < 16 ==> #[trigger] ends@[m] == b[m + 1],
@loop_decreases
    16 - i
@loop 6
@invariant
    rctx(o0, o1, s, e, key_first_0, shift_0, max_shift, h, pv, b), s == start, e == end, o0 == old(p0)@, o1 == old(p1)@,
    0 <= i <= 16, rcur(o0, o1, p0@, p1@, s, e),
    forall|m: int| 0 <= m < 16 ==> #[trigger] starts@[m] == b[m] && ends@[m] == b[m + 1],
    allp(p0@, p1@, s, e, okp(key_first_0, shift_0, max_shift, h, pv)),
    bdone(p0@, p1@, key_first_0, shift_0, b), bsorted(p0@, p1@, b, i as int),
    shift_0 == 0 ==> key_first_0 && !key_first && shift == max_shift, shift_0 != 0 ==> 4 <= shift_0 && key_first == key_first_0 && shift == shift_0 - 4,
@loop_decreases
    16 - i
@at loop 6 begin
    let ghost b0 = p0@; let ghost b1 = p1@; let ghost mi = i as int;
    proof {
        assert(starts@[i as int] == b[mi]); assert(ends@[i as int] == b[mi + 1]);
        assert(b[0] <= b[mi] <= b[mi + 1] <= b[16]);
        assert(dall(p0@, p1@, key_first_0, shift_0, b[mi], b[mi + 1], mi));
        lemma_next_uniform(p0@, p1@, b[mi], b[mi + 1], key_first_0, shift_0, max_shift, h, pv, i as int, key_first, shift);
        if b[mi] >= b[mi + 1] {
            assert(perm(b0, b1, p0@, p1@, b[mi], b[mi + 1]));
            lemma_bucket_step(o0, o1, b0, b1, p0@, p1@, s, e, key_first_0, shift_0, max_shift, h, pv, b, mi);
        }
    }
@at loop 6 end
    proof { lemma_bucket_step(o0, o1, b0, b1, p0@, p1@, s, e, key_first_0, shift_0, max_shift, h, pv, b, mi); }
@at end
    proof { lemma_buckets_sorted(p0@, p1@, s, e, b, key_first_0, shift_0, max_shift, h, pv); }
