@lib
// ---- the format: comment lines, the size line, a line for each edge
pub open spec fn after_line(s: Seq<u8>) -> Seq<u8> { skip_past(s, -1, 10).0 }
pub proof fn lemma_skip(s: Seq<u8>, n: int, d: int)
    ensures skip_past(s, n, d).0.len() <= s.len(), n != 0 && s.len() > 0 ==> skip_past(s, n, d).0.len() < s.len(), skip_past(s, n, d).1 ==> skip_past(s, n, d).0.len() == 0,
    decreases s.len(),
{ if n != 0 && s.len() > 0 && s[0] != d { lemma_skip(s.skip(1), n - 1, d); } }
pub open spec fn comment(s: Seq<u8>) -> bool { s.len() > 0 && (s[0] == 37 || s[0] == 35) }
pub open spec fn after_comments(s: Seq<u8>) -> Seq<u8>
    decreases s.len() via after_comments_dec
{ if comment(s) { after_comments(after_line(s)) } else { s } }
#[via_fn]
proof fn after_comments_dec(s: Seq<u8>) { lemma_skip(s, -1, 10); }
pub struct Head { pub n: u64, pub m: u64, pub rest: Seq<u8> }
pub open spec fn sized(x: u64) -> bool { x < 0x1000_0000_0000_0000 }
// the size line: three numbers that are not negative
pub open spec fn head(s: Seq<u8>) -> Option<Head> {
    match take_num(after_comments(s)) {
        None => None,
        Some((n, t)) => match take_num(t) {
            None => None,
            Some((c, u)) => match take_num(u) {
                None => None,
                Some((m, v)) => if sized(n) && sized(c) && sized(m) { Some(Head { n: n, m: m, rest: v }) } else { None },
            },
        },
    }
}
// a line for an edge: two numbers, and whatever follows them
pub open spec fn take_row(s: Seq<u8>) -> Option<((u64, u64), Seq<u8>)> {
    match take_num(s) {
        None => None,
        Some((x, t)) => match take_num(t) {
            None => None,
            Some((y, u)) => Some(((x, y), after_line(u))),
        },
    }
}
pub open spec fn rows(s: Seq<u8>, m: int) -> Seq<(u64, u64)>
    decreases m,
{
    if m <= 0 { Seq::empty() } else { match take_row(s) { None => Seq::empty(), Some((p, t)) => seq![p] + rows(t, m - 1) } }
}
pub open spec fn file_rows(s: Seq<u8>) -> Seq<(u64, u64)> { rows(head(s)->0.rest, head(s)->0.m as int) }
// loops and vertices outside 1..n are left out
pub open spec fn names_edge(p: (u64, u64), n: int) -> bool { 1 <= p.0 <= n && 1 <= p.1 <= n && p.0 != p.1 }
pub open spec fn row_at(p: (u64, u64), n: int, x: int, y: int) -> bool { names_edge(p, n) && (p.0 == x && p.1 == y || p.0 == y && p.1 == x) }
pub open spec fn written(w: Seq<(u64, u64)>, n: int, x: int, y: int) -> bool { exists|k: int| 0 <= k < w.len() && row_at(#[trigger] w[k], n, x, y) }
pub open spec fn cell(a: Seq<u64>, b: Seq<u64>, n: int, k: int, p: (u64, u64)) -> bool {
    if names_edge(p, n) { a[n + 1 + 2 * k] == p.0 && b[n + 1 + 2 * k] == p.1 && a[n + 2 + 2 * k] == p.1 && b[n + 2 + 2 * k] == p.0 }
    else { a[n + 1 + 2 * k] == 0 && b[n + 1 + 2 * k] == 0 && a[n + 2 + 2 * k] == 0 && b[n + 2 + 2 * k] == 0 }
}
pub open spec fn cells(a: Seq<u64>, b: Seq<u64>, n: int, m: int, w: Seq<(u64, u64)>, i: int) -> bool {
    &&& a.len() == b.len() == 2 * m + n + 1 && 0 <= i <= m && i <= w.len() && 0 <= n
    &&& forall|k: int| 0 <= k <= n ==> #[trigger] a[k] == k
    &&& forall|k: int| 0 <= k <= n ==> #[trigger] b[k] == k
    &&& forall|k: int| 0 <= k < i ==> cell(a, b, n, k, #[trigger] w[k])
    &&& forall|k: int| n + 1 + 2 * i <= k < a.len() ==> #[trigger] a[k] == 0
    &&& forall|k: int| n + 1 + 2 * i <= k < a.len() ==> #[trigger] b[k] == 0
}
proof fn lemma_line(w: Seq<(u64, u64)>, i: int, s: Seq<u8>, m: int)
    requires 0 <= i <= w.len(), w.skip(i) =~= rows(s, m - i), i < m,
    ensures match take_row(s) { None => i == w.len(), Some((p, t)) => i < w.len() && w[i] == p && w.skip(i + 1) =~= rows(t, m - (i + 1)) },
{
    if let Some((p, t)) = take_row(s) {
        let r = rows(s, m - i);
        assert(r == seq![p] + rows(t, m - i - 1));
        assert(w.skip(i)[0] == r[0]);
        assert(w.skip(i + 1) =~= w.skip(i).skip(1));
        assert(r.skip(1) =~= rows(t, m - i - 1));
    } else { assert(w.skip(i).len() == 0); }
}
proof fn lemma_line_none(w: Seq<(u64, u64)>, i: int, s: Seq<u8>, m: int)
    requires 0 <= i <= w.len(), w.skip(i) =~= rows(s, m - i), i >= m || s.len() == 0,
    ensures i == w.len(),
{ if i < m { assert(take_num(s) is None); } assert(w.skip(i).len() == 0); }
proof fn lemma_line_len(s: Seq<u8>, m: int)
    ensures rows(s, m).len() <= (if m < 0 { 0 } else { m }),
    decreases m,
{ if m > 0 { if let Some((p, t)) = take_row(s) { lemma_line_len(t, m - 1); } } }
proof fn lemma_cells(a: Seq<u64>, b: Seq<u64>, n: int, m: int, w: Seq<(u64, u64)>)
    requires cells(a, b, n, m, w, w.len() as int), n < u64::MAX, a.len() < 0x1000_0000_0000,
    ensures edges_ok(a, b, n), forall|x: int, y: int| #[trigger] hasp(a, b, x, y) == ((0 <= x == y <= n) || written(w, n, x, y)),
{
    assert forall|t: int| 0 <= t < a.len() implies #[trigger] a[t] <= n && b[t] <= n && (a[t] == b[t] || written(w, n, a[t] as int, b[t] as int)) by { lemma_cell(a, b, n, m, w, t); }
    assert forall|x: int, y: int| #[trigger] hasp(a, b, x, y) == ((0 <= x == y <= n) || written(w, n, x, y)) by {
        if 0 <= x == y <= n { assert(a[x] == x && b[x] == x); }
        if written(w, n, x, y) {
            let k = choose|k: int| 0 <= k < w.len() && row_at(#[trigger] w[k], n, x, y);
            assert(cell(a, b, n, k, w[k]));
            let t = n + 1 + 2 * k;
            assert(0 <= t && t + 1 < a.len());
            assert(a[t] == w[k].0 && b[t] == w[k].1 && a[t + 1] == w[k].1 && b[t + 1] == w[k].0);
        }
    }
    assert forall|x: int, y: int| #[trigger] hasp(a, b, x, y) implies hasp(a, b, y, x) by { lemma_written(w, n, x, y); }
}
proof fn lemma_written(w: Seq<(u64, u64)>, n: int, x: int, y: int)
    ensures written(w, n, x, y) == written(w, n, y, x),
{
    if written(w, n, x, y) { let k = choose|k: int| 0 <= k < w.len() && row_at(#[trigger] w[k], n, x, y); assert(row_at(w[k], n, y, x)); }
    if written(w, n, y, x) { let k = choose|k: int| 0 <= k < w.len() && row_at(#[trigger] w[k], n, y, x); assert(row_at(w[k], n, x, y)); }
}
proof fn lemma_cell(a: Seq<u64>, b: Seq<u64>, n: int, m: int, w: Seq<(u64, u64)>, t: int)
    requires cells(a, b, n, m, w, w.len() as int), 0 <= t < a.len(),
    ensures a[t] <= n, b[t] <= n, a[t] == b[t] || written(w, n, a[t] as int, b[t] as int),
{
    if t > n && t < n + 1 + 2 * w.len() {
        let k = (t - n - 1) / 2;
        assert(0 <= k < w.len() && (t == n + 1 + 2 * k || t == n + 2 + 2 * k));
        assert(cell(a, b, n, k, w[k]));
        if names_edge(w[k], n) { assert(row_at(w[k], n, a[t] as int, b[t] as int)); }
    }
}
// ---- the text that is written, and how it is read
pub open spec fn row_text(p: (u64, u64)) -> Seq<u8> { dec(p.0 as int).push(32) + dec(p.1 as int).push(10) }
pub open spec fn rows_text(w: Seq<(u64, u64)>) -> Seq<u8>
    decreases w.len(),
{ if w.len() == 0 { Seq::empty() } else { row_text(w[0]) + rows_text(w.skip(1)) } }
proof fn lemma_rows_push(w: Seq<(u64, u64)>, p: (u64, u64))
    ensures rows_text(w.push(p)) =~= rows_text(w) + row_text(p),
    decreases w.len(),
{
    let v = w.push(p);
    assert(rows_text(v) == row_text(v[0]) + rows_text(v.skip(1)));
    if w.len() == 0 { assert(v.skip(1) =~= Seq::empty()); assert(rows_text(v.skip(1)) =~= Seq::empty()); }
    else { assert(v.skip(1) =~= w.skip(1).push(p)); lemma_rows_push(w.skip(1), p); assert(v[0] == w[0]); assert(rows_text(w) == row_text(w[0]) + rows_text(w.skip(1))); }
}
proof fn lemma_digits(n: int, t: Seq<u8>)
    requires n >= 0,
    ensures dec(n).len() > 0, is_digit(dec(n)[0]), digits(dec(n) + t, 0) == digits(t, n), forall|k: int| 0 <= k < dec(n).len() ==> #[trigger] is_digit(dec(n)[k]),
    decreases n,
{
    let d = dec(n);
    if n < 10 {
        assert((d + t).skip(1) =~= t);
        assert((d + t)[0] == d[0]);
    } else {
        let c = (48 + n % 10) as u8;
        lemma_digits(n / 10, seq![c] + t);
        assert(d + t =~= dec(n / 10) + (seq![c] + t));
        assert((seq![c] + t).skip(1) =~= t);
        assert((seq![c] + t)[0] == c);
        assert(10 * (n / 10) + n % 10 == n);
    }
}
proof fn lemma_take(n: u64, t: Seq<u8>)
    requires t.len() > 0, !is_digit(t[0]),
    ensures take_num(dec(n as int) + t) == Some((n, t)),
{
    lemma_digits(n as int, t);
    let s = dec(n as int) + t;
    assert(s[0] == dec(n as int)[0]);
    assert(!is_space(s[0]) && !signed(s));
}
proof fn lemma_take_space(c: u8, s: Seq<u8>)
    requires is_space(c),
    ensures take_num(seq![c] + s) == take_num(s),
{ assert((seq![c] + s).skip(1) =~= s); assert((seq![c] + s)[0] == c); }
proof fn lemma_take_row(p: (u64, u64), t: Seq<u8>)
    ensures take_row(row_text(p) + t) == Some((p, t)),
{
    let u = dec(p.1 as int).push(10) + t;
    let e = seq![10u8] + t;
    assert(row_text(p) + t =~= dec(p.0 as int) + (seq![32u8] + u));
    lemma_take(p.0, seq![32u8] + u);
    lemma_take_space(32, u);
    assert(u =~= dec(p.1 as int) + e);
    lemma_take(p.1, e);
    assert(e.skip(1) =~= t);
    assert(e[0] == 10);
}
proof fn lemma_read_rows(w: Seq<(u64, u64)>)
    ensures rows(rows_text(w), w.len() as int) =~= w,
    decreases w.len(),
{
    if w.len() > 0 {
        lemma_take_row(w[0], rows_text(w.skip(1)));
        lemma_read_rows(w.skip(1));
        assert(seq![w[0]] + w.skip(1) =~= w);
    }
}
// white space before the first line changes nothing
proof fn lemma_rows_space(c: u8, s: Seq<u8>, m: int)
    requires is_space(c),
    ensures rows(seq![c] + s, m) == rows(s, m),
{ lemma_take_space(c, s); }
pub open spec fn one_line(c: Seq<u8>) -> bool { comment(c) && c.last() == 10 && forall|k: int| 0 <= k < c.len() - 1 ==> #[trigger] c[k] != 10 }
proof fn lemma_skip_line(c: Seq<u8>, t: Seq<u8>, n: int)
    requires c.len() > 0, c.last() == 10, forall|k: int| 0 <= k < c.len() - 1 ==> #[trigger] c[k] != 10, n < 0,
    ensures skip_past(c + t, n, 10).0 =~= t,
    decreases c.len(),
{
    assert((c + t)[0] == c[0]);
    if c.len() == 1 { assert((c + t).skip(1) =~= t); }
    else { assert((c + t).skip(1) =~= c.skip(1) + t); lemma_skip_line(c.skip(1), t, n - 1); }
}
pub open spec fn head_text(c: Seq<u8>, n: u64, m: u64) -> Seq<u8> { c + dec(n as int).push(32) + dec(n as int).push(32) + dec(m as int).push(10) }
pub open spec fn ints(p: (u64, u64)) -> (int, int) { (p.0 as int, p.1 as int) }
// each edge is written once
pub open spec fn listing(w: Seq<(u64, u64)>, s: Set<(int, int)>) -> bool {
    &&& w.len() == s.len()
    &&& forall|k: int| 0 <= k < w.len() ==> s.contains(#[trigger] ints(w[k]))
    &&& forall|p: (int, int)| #[trigger] s.contains(p) ==> exists|k: int| 0 <= k < w.len() && #[trigger] ints(w[k]) == p
}
proof fn lemma_listing(w: Seq<(u64, u64)>, s: Set<(int, int)>, a: u64, b: u64)
    requires listing(w, s), !s.contains((a as int, b as int)),
    ensures listing(w.push((a, b)), s.insert((a as int, b as int))),
{
    let v = w.push((a, b)); let t = s.insert((a as int, b as int));
    assert forall|p: (int, int)| #[trigger] t.contains(p) implies exists|k: int| 0 <= k < v.len() && #[trigger] ints(v[k]) == p by {
        if s.contains(p) { let k = choose|k: int| 0 <= k < w.len() && #[trigger] ints(w[k]) == p; assert(ints(v[k]) == p); } else { assert(ints(v[w.len() as int]) == p); }
    }
}
// read as the format says, the text has these vertices and lists these edges
pub open spec fn reads_as(t: Seq<u8>, n: int, s: Set<(int, int)>) -> bool {
    head(t) is Some && head(t)->0.n == n && listing(file_rows(t), s)
}
proof fn lemma_reads(c: Seq<u8>, n: u64, m: u64, w: Seq<(u64, u64)>, s: Set<(int, int)>)
    requires one_line(c), sized(n), sized(m), w.len() == m, listing(w, s),
    ensures reads_as(head_text(c, n, m) + rows_text(w), n as int, s),
{
    let r = seq![10u8] + rows_text(w);
    let u = dec(m as int) + r;
    let v = dec(n as int) + (seq![32u8] + u);
    let x = dec(n as int) + (seq![32u8] + v);
    let t = head_text(c, n, m) + rows_text(w);
    assert(t =~= c + x);
    assert(t[0] == c[0]);
    lemma_skip_line(c, x, -1);
    lemma_digits(n as int, seq![32u8] + v);
    assert(x[0] == dec(n as int)[0]);
    assert(after_line(t) == x);
    assert(!comment(x));
    assert(after_comments(x) == x);
    assert(after_comments(t) == x);
    lemma_take(n, seq![32u8] + v); lemma_take_space(32, v);
    lemma_take(n, seq![32u8] + u); lemma_take_space(32, u);
    lemma_take(m, r);
    assert(head(t) == Some(Head { n: n, m: m, rest: r }));
    lemma_rows_space(10, rows_text(w), m as int);
    lemma_read_rows(w);
}
// reading what was written of a graph gives its edges
pub open spec fn backs(s: Sh, n: int, w: Seq<(u64, u64)>) -> bool { forall|x: int, y: int| #[trigger] s.adj(x, y) == ((0 <= x == y <= n) || written(w, n, x, y)) }
proof fn lemma_adj_zero(s: Sh, x: int, y: int)
    requires s.ok(), s.adj(x, y),
    ensures 0 <= x < s.n(), 0 <= y < s.n(), x == 0 ==> y == 0,
{
    assert(s.vok(x)); assert(s.vok(0)); assert(s.nb(0, 0) == 0);
    let k = choose|k: int| 0 <= k < s.v[x].N && #[trigger] s.nb(x, k) == y;
    assert(s.nb(x, k) == y);
}
pub proof fn lemma_file_back(s: Sh, n: int, w: Seq<(u64, u64)>)
    requires s.ok(), s.n() == n + 1, listing(w, edges_of(s)),
    ensures backs(s, n, w),
{
    reveal(edges_of);
    lemma_degs(s); lemma_epr(s, s.n(), 0);
    let e = edges_of(s);
    assert forall|x: int, y: int| #[trigger] s.adj(x, y) == ((0 <= x == y <= n) || written(w, n, x, y)) by {
        lemma_am_all(s, x, y);
        if 0 <= x == y <= n { assert(s.vok(x)); assert(s.nb(x, s.v[x].spos) == x); }
        if s.adj(x, y) { assert(s.adj(y, x)); lemma_adj_zero(s, x, y); lemma_adj_zero(s, y, x); }
        if written(w, n, x, y) { let k = choose|k: int| 0 <= k < w.len() && row_at(#[trigger] w[k], n, x, y); assert(e.contains(ints(w[k]))); }
        if s.adj(x, y) && x != y {
            let p = if x < y { (x, y) } else { (y, x) };
            assert(e.contains(p));
            let k = choose|k: int| 0 <= k < w.len() && #[trigger] ints(w[k]) == p;
            assert(row_at(w[k], n, x, y));
        }
    }
}
// a file written of a graph and read again gives the same graph
proof fn lemma_round_file(g: pygraph, h: pygraph, t: Seq<u8>)
    requires g.pwf(), g.loaded(), reads_as(t, g.nvert as int, edges_of(g.g().sh())),
    ensures made(h, head(t)->0.n as int, |x: int, y: int| written(file_rows(t), head(t)->0.n as int, x, y)) ==> alike(g, h),
{
    lemma_file_back(g.g().sh(), g.nvert as int, file_rows(t));
    if made(h, head(t)->0.n as int, |x: int, y: int| written(file_rows(t), head(t)->0.n as int, x, y)) { lemma_same_graph(g.g().sh(), h.g().sh()); }
}

@fn mmio4_reader(filename, n_vert, n_edges)
@locals u64 v1, u64 v2, u64 dummy
@ensures
    r is Ok == (has_file(filename) && head(text_of(filename)) is Some),
    r matches Ok(p) ==> *final(n_vert) == head(text_of(filename))->0.n && edges_ok(p.first@, p.second@, *final(n_vert) as int)
        && forall|x: int, y: int| #[trigger] hasp(p.first@, p.second@, x, y) == ((0 <= x == y <= *final(n_vert)) || written(file_rows(text_of(filename)), *final(n_vert) as int, x, y)),
@loop 1
@invariant
    f.ok(), !f.failed@, f.opened@, after_comments(f.rest@) == after_comments(text_of(filename)),
@loop_decreases
    f.rest@.len()
@loop 2
@invariant
    j <= *n_vert + 1, *n_vert < 0x1000_0000_0000_0000, *n_edges < 0x1000_0000_0000_0000, Edges.first@.len() == Edges.second@.len() == 2 * *n_edges + *n_vert + 1, 
    forall|k: int| 0 <= k < j ==> #[trigger] Edges.first@[k] == k, forall|k: int| 0 <= k < j ==> #[trigger] Edges.second@[k] == k,
    forall|k: int| j <= k < Edges.first@.len() ==> #[trigger] Edges.first@[k] == 0, forall|k: int| j <= k < Edges.first@.len() ==> #[trigger] Edges.second@[k] == 0,
@loop_decreases
    *n_vert + 1 - j
@loop 3
@invariant_except_break
    w.skip(i as int) =~= rows(f.rest@, *n_edges - i), f.failed@ ==> f.ended@,
@invariant
    f.ok(), j == *n_vert + 1 + 2 * i, i <= *n_edges, *n_edges < 0x1000_0000_0000_0000, *n_vert < 0x1000_0000_0000_0000, n_invalids <= i, n_loops <= i,
    cells(Edges.first@, Edges.second@, *n_vert as int, *n_edges as int, w, i as int),
@loop_ensures
    i == w.len() || (w.skip(i as int) =~= rows(f.rest@, *n_edges - i) && (i >= *n_edges || f.ended@)),
@loop_decreases
    *n_edges - i
@at loop 1 begin
    proof { lemma_skip(f.rest@, -1, 10); }
@at after /let mut Edges/
    let ghost w = file_rows(text_of(filename));
    proof { lemma_line_len(f.rest@, *n_edges as int); }
@at loop 3 before
    proof { assert(w.skip(0) =~= w); }
@at loop 3 begin
    let ghost s0 = f.rest@;
    proof { lemma_line(w, i as int, s0, *n_edges as int); }
@at begin
    proof { assert(1u64 << 60 == 0x1000_0000_0000_0000) by(bit_vector); }
@at loop 3 after
    proof { if i != w.len() { lemma_line_none(w, i as int, f.rest@, *n_edges as int); } }
@at end
    proof { lemma_cells(Edges.first@, Edges.second@, *n_vert as int, *n_edges as int, w); }

@fn from_file(filename)
@requires
    head(text_of(filename)) matches Some(h) ==> h.n + 1 < 0x1_0000_0000,
@ensures
    r is Ok == (has_file(filename) && head(text_of(filename)) is Some),
    r matches Ok(p) ==> made(p, head(text_of(filename))->0.n as int, |x: int, y: int| written(file_rows(text_of(filename)), head(text_of(filename))->0.n as int, x, y)),
@at after /let mut edges/
    proof { assert(hasp(edges.first@, edges.second@, 0, 0)); }

@fn pygraph::to_file(filename)
@requires
    self.pwf(),
@ensures
    r is Ok == (self.loaded() && may_write(filename)),
    r matches Ok(f) ==> f.name@ == filename && f.opened@ && reads_as(f.out@, self.nvert as int, edges_of(self.g().sh())),
@loop 1
@invariant
    self.pwf(), self.loaded(), i <= self.g().n_vert, s == self.g().sh(), s.ok(), f.opened@, f.name@ == filename,
    listing(w, epr(s, i as int, 0)), f.out@ =~= hd + rows_text(w),
@loop_decreases
    self.g().n_vert - i
@loop 2
@invariant
    self.pwf(), self.loaded(), i < self.g().n_vert, s == self.g().sh(), s.ok(), f.opened@, f.name@ == filename, s.v[i as int].spos < k <= s.v[i as int].N,
    listing(w, epr(s, i as int, k as int)), f.out@ =~= hd + rows_text(w),
@loop_decreases
    s.v[i as int].N - k
@at begin
    let ghost s = self.g().sh();
    let ghost mut w: Seq<(u64, u64)> = Seq::empty();
    proof { reveal(edges_of); }
@at after /f\.write_lit/
    let ghost c = f.out@;
    proof { assert(one_line(c)); }
@at loop 1 before
    let ghost hd = f.out@;
    proof { assert(hd =~= head_text(c, self.nvert, self.nedges)); assert(epr(s, 0, 0) =~= Set::<(int, int)>::empty()); }
@at loop 1 begin
    proof { assert(s.vok(i as int)); assert(s.v[i as int] == vsh(self.g().vertices@[i as int])); lemma_epr_ends(s, i as int); }
@at loop 2 begin
    let ghost o0 = f.out@;
    proof { assert(s.vok(i as int)); assert(s.v[i as int] == vsh(self.g().vertices@[i as int])); lemma_epr_step(self.g().sh(), i as int, k as int); lemma_epr_room(self.g().sh(), i as int, k as int); }
@at loop 2 body_end
    proof {
        let p = (i, s.nb(i as int, k as int) as u64);
        lemma_listing(w, epr(s, i as int, k as int), p.0, p.1);
        lemma_rows_push(w, p);
        assert(f.out@ =~= o0 + row_text(p));
        w = w.push(p);
    }
@at end
    proof { lemma_reads(c, self.nvert, self.nedges, w, edges_of(s)); }
