@class CLS base: pygraph; S1: PyObj; S2: PyObj; d1: Option<Metric>; d2: Option<Metric>; is_d1_symmetric: bool; is_d2_symmetric: bool; epsilon: Dbl
@enum GenAnswer Indices(Pair<Vec<u64>, Vec<u64>>); Elements(Pair<Vec<Elem>, Vec<Elem>>)
@enum Wrapper Elements(CLS)
@class WrappedIterator _it: CorrespondenceIterator; _wrapper: Wrapper
@enum GenIter Plain(CorrespondenceIterator); Wrapped(WrappedIterator)
@lib
// ---- correspondence graphs of two sets
pub open spec fn fits(g: CLS) -> bool { g.S1.plen() < 0x1_0000_0000 && g.S2.plen() < 0x1_0000_0000 && g.S1.plen() * g.S2.plen() < 0xFFFF_FFF0 }
impl CLS {
    pub open spec fn n1(self) -> int { self.S1.plen() as int }
    pub open spec fn n2(self) -> int { self.S2.plen() as int }
    pub open spec fn ok(self) -> bool {
        &&& self.base.pwf() && fits(self) && (MAT1 ==> self.S1.dense()) && (MAT2 ==> self.S2.dense())
        &&& self.base.loaded() ==> self.n1() > 0 && self.n2() > 0 && apart2(self.base.g().sh(), self.n1(), self.n2())
    }
    // the distances in use, and whether either is taken to be symmetric
    pub open spec fn dist1(self) -> Metric { if self.d1 is Some { self.d1->0 } else { plain() } }
    pub open spec fn dist2(self) -> Metric { if self.d1 is Some && self.d2 is Some { self.d2->0 } else { plain() } }
    pub open spec fn sym1(self) -> bool { self.d1 is Some ==> self.is_d1_symmetric }
    pub open spec fn sym2(self) -> bool { self.d1 is Some && self.d2 is Some ==> self.is_d2_symmetric }
    // joined when the distances agree and the condition holds
    pub open spec fn by_distance(self, s: Sh, c: Con) -> bool {
        forall|x: int, y: int| #[trigger] s.adj(x, y) == ((0 <= x == y <= self.n1() * self.n2())
            || cor_of(self.dist1(), self.S1, self.sym1(), self.n1(), self.dist2(), self.S2, self.sym2(), self.n2(), self.epsilon@, c, x, y))
    }
    pub open spec fn by_condition(self, s: Sh, c: Con) -> bool {
        forall|x: int, y: int| #[trigger] s.adj(x, y) == ((0 <= x == y <= self.n1() * self.n2()) || cor_con(self.n1(), self.n2(), c, x, y))
    }
    // what makes building the edges fail: an empty set, or a distance that fails; the default for arrays never does
    pub open spec fn unable(self) -> bool {
        ||| self.n1() == 0 || self.n2() == 0
        ||| (self.d1 is Some || !MAT1) && throws(self.dist1(), self.S1, self.n1())
        ||| (self.d1 is Some && self.d2 is Some || !MAT2) && throws(self.dist2(), self.S2, self.n2())
    }
    // no distance given: that of the rows of an array
    pub open spec fn rows_compared(self) -> bool {
        &&& MAT1 && self.d1 is None ==> forall|i: int, j: int| 0 <= i < self.n1() && 0 <= j < self.n1() ==> euclid(self.S1, i, j, #[trigger] self.dist1().d(self.S1, i, j))
        &&& MAT2 && (self.d1 is None || self.d2 is None) ==> forall|i: int, j: int| 0 <= i < self.n2() && 0 <= j < self.n2() ==> euclid(self.S2, i, j, #[trigger] self.dist2().d(self.S2, i, j))
    }
}
// the positions that the vertices in c stand for
pub open spec fn at1(c: Seq<u64>, n2: int) -> Seq<u64> { Seq::new(c.len(), |k: int| ((c[k] - 1) / n2) as u64) }
pub open spec fn at2(c: Seq<u64>, n2: int) -> Seq<u64> { Seq::new(c.len(), |k: int| ((c[k] - 1) % n2) as u64) }
pub open spec fn found(g: CLS, c: Seq<u64>, p: Seq<u64>, q: Seq<u64>) -> bool { p == at1(c, g.n2()) && q == at2(c, g.n2()) && one_to_one(p, q, g.n1(), g.n2()) }
pub open spec fn given(g: CLS, c: Seq<u64>, t: Pair<Vec<Elem>, Vec<Elem>>) -> bool {
    one_to_one(at1(c, g.n2()), at2(c, g.n2()), g.n1(), g.n2()) && t.first@ == elems(g.S1, at1(c, g.n2())) && t.second@ == elems(g.S2, at2(c, g.n2()))
}
pub open spec fn answered(g: CLS, c: Seq<u64>, a: GenAnswer, ri: bool) -> bool {
    match a {
        GenAnswer::Indices(p) => ri && found(g, c, p.first@, p.second@),
        GenAnswer::Elements(t) => !ri && given(g, c, t),
    }
}
pub open spec fn known(s: Sh, g: CLS, c: Seq<u64>, x: Pair<Vec<u64>, Vec<u64>>) -> bool {
    s.ok() && apart2(s, g.n1(), g.n2()) && clq_list(s, c) && decoded(c, g.n2(), x.first@, x.second@)
}
pub proof fn lemma_found(s: Sh, g: CLS, c: Seq<u64>, x: Pair<Vec<u64>, Vec<u64>>)
    requires known(s, g, c, x), fits(g),
    ensures found(g, c, x.first@, x.second@),
        forall|k: int| 0 <= k < x.first@.len() ==> #[trigger] x.first@[k] < g.n1(), forall|k: int| 0 <= k < x.second@.len() ==> #[trigger] x.second@[k] < g.n2(), x.first@.len() == x.second@.len() == c.len(),
{
    let p = x.first@; let q = x.second@;
    lemma_one_to_one(s, g.n1(), g.n2(), c, p, q);
    assert forall|k: int| 0 <= k < p.len() implies #[trigger] p[k] == at1(c, g.n2())[k] by { assert(p[k] == (c[k] - 1) / g.n2()); }
    assert forall|k: int| 0 <= k < q.len() implies #[trigger] q[k] == at2(c, g.n2())[k] by { assert(p[k] == (c[k] - 1) / g.n2()); assert(q[k] == (c[k] - 1) % g.n2()); }
    assert forall|k: int| 0 <= k < q.len() implies #[trigger] q[k] < g.n2() by { assert(p[k] < g.n1() && q[k] < g.n2()); }
    assert(p =~= at1(c, g.n2())); assert(q =~= at2(c, g.n2()));
}
pub proof fn lemma_known(g: CLS, x: Pair<Vec<u64>, Vec<u64>>)
    requires fits(g), exists|s: Sh, c: Seq<u64>| #[trigger] known(s, g, c, x),
    ensures inside(g, x), forall|s: Sh, c: Seq<u64>| #[trigger] known(s, g, c, x) ==> found(g, c, x.first@, x.second@),
{
    assert forall|s: Sh, c: Seq<u64>| #[trigger] known(s, g, c, x) implies found(g, c, x.first@, x.second@) by { lemma_found(s, g, c, x); }
    let (s, c) = choose|s: Sh, c: Seq<u64>| #[trigger] known(s, g, c, x);
    lemma_found(s, g, c, x);
}
// positions within the sets
pub open spec fn inside(g: CLS, x: Pair<Vec<u64>, Vec<u64>>) -> bool {
    (forall|k: int| 0 <= k < x.first@.len() ==> #[trigger] x.first@[k] < g.n1()) && forall|k: int| 0 <= k < x.second@.len() ==> #[trigger] x.second@[k] < g.n2()
}
impl Wrapper {
    pub open spec fn of(self) -> CLS { match self { Wrapper::Elements(g) => g } }
}
// what the function given to the iterator does
impl Wrapper {
    pub fn call(&self, x: &Pair<Vec<u64>, Vec<u64>>) -> (r: Result<GenAnswer, CmError>)
        requires self.of().ok(), exists|s: Sh, c: Seq<u64>| #[trigger] known(s, self.of(), c, *x),
        ensures r is Ok, forall|s: Sh, c: Seq<u64>| #[trigger] known(s, self.of(), c, *x) ==> answered(self.of(), c, r->Ok_0, false),
    {
        match self { Wrapper::Elements(g) => g.all_correspondences_lambda_Elements(x) }
    }
}
impl WrappedIterator {
    pub open spec fn ok(self) -> bool {
        let g = self._wrapper.of();
        iwf(self._it.en@, self._it.G@) && g.ok() && g.n2() > 0 && self._it.len2 == g.n2() && apart2(self._it.G@[0].sh(), g.n1(), g.n2())
    }
}
// every clique of that size is still to come
pub open spec fn all_left(en: CliqueEnumerator, s: Sh, size: int) -> bool { forall|q: Set<int>| #[trigger] left(en, s, q) == (s.clq(q) && q.len() == size && q.len() > 0) }
// the arguments are of the kinds expected
pub open spec fn sets_given(v: Seq<Val>) -> bool { v[0] is This && v[1] is Obj && v[2] is Int && v[3] is Obj && v[4] is Int }
pub open spec fn dists_given(v: Seq<Val>, k: int) -> bool { (v.len() > k ==> v.len() > k + 1 && v[k] is Dist && v[k + 1] is Truth) && (v.len() > k + 2 ==> v.len() == k + 4 && v[k + 2] is Dist && v[k + 3] is Truth) }
pub open spec fn dist_a(v: Seq<Val>, k: int) -> Metric { if v.len() > k { v[k]->Dist_0 } else { plain() } }
pub open spec fn dist_b(v: Seq<Val>, k: int) -> Metric { if v.len() > k + 2 { v[k + 2]->Dist_0 } else { plain() } }
pub open spec fn sym_a(v: Seq<Val>, k: int) -> bool { v.len() > k ==> v[k + 1]->Truth_0 }
pub open spec fn sym_b(v: Seq<Val>, k: int) -> bool { v.len() > k + 2 ==> v[k + 3]->Truth_0 }
pub open spec fn none_or_fails(v: Seq<Val>, a: Metric, b: Metric) -> bool {
    v[2]->Int_0 == 0 || v[4]->Int_0 == 0 || throws(a, v[1]->Obj_0, v[2]->Int_0 as int) || throws(b, v[3]->Obj_0, v[4]->Int_0 as int)
}
pub open spec fn test_fails(v: Seq<Val>, c: Cond) -> bool { throws_c(c, v[1]->Obj_0, v[2]->Int_0 as int, v[3]->Obj_0, v[4]->Int_0 as int) }
pub proof fn lemma_product(v: Seq<Val>)
    ensures v.len() > 4 && v[2] is Int && v[4] is Int && v[2]->Int_0 > 0 && v[4]->Int_0 > 0 ==> v[2]->Int_0 * v[4]->Int_0 > 0,
{
    if v.len() > 4 && v[2] is Int && v[4] is Int { let a = v[2]->Int_0; let b = v[4]->Int_0; assert(a > 0 && b > 0 ==> a * b > 0) by(nonlinear_arith); }
}

@fn bound_build_edges_metric_only(pg, v)
@sig (pg: &mut pygraph, v: &Vec<Val>) -> Result<bool, CmError>
@requires
    v@.len() >= 6 ==> (v@[2] matches Val::Int(n1) && v@[4] matches Val::Int(n2) && n1 < 0x1_0000_0000 && n2 < 0x1_0000_0000 && n1 * n2 < 0xFFFF_FFF0),
@ensures
    r is Err ==> *final(pg) == *old(pg),
    r is Err && v@.len() >= 6 && sets_given(v@) && v@[5] is Real && dists_given(v@, 6) ==> none_or_fails(v@, dist_a(v@, 6), dist_b(v@, 6)),
    r is Ok ==> (v@.len() == 6 || v@.len() == 8 || v@.len() == 10) && final(pg).pwf() && final(pg).loaded() && final(pg).nvert == v@[2]->Int_0 * v@[4]->Int_0 && v@[2]->Int_0 > 0 && v@[4]->Int_0 > 0,
    r is Ok ==> forall|x: int, y: int| #[trigger] final(pg).g().sh().adj(x, y) == ((0 <= x == y <= v@[2]->Int_0 * v@[4]->Int_0)
        || cor_of(dist_a(v@, 6), v@[1]->Obj_0, sym_a(v@, 6), v@[2]->Int_0 as int, dist_b(v@, 6), v@[3]->Obj_0, sym_b(v@, 6), v@[4]->Int_0 as int, v@[5]->Real_0@, always(), x, y)),
@at begin
    proof { lemma_product(v@); }

@fn bound_build_edges(pg, v)
@sig (pg: &mut pygraph, v: &Vec<Val>) -> Result<bool, CmError>
@requires
    v@.len() >= 7 ==> (v@[1] matches Val::Obj(l1) && v@[3] matches Val::Obj(l2) && v@[6] matches Val::Test(c) && v@[2] matches Val::Int(n1) && v@[4] matches Val::Int(n2)
        && n1 < 0x1_0000_0000 && n2 < 0x1_0000_0000 && n1 * n2 < 0xFFFF_FFF0 && ordless(con_of(c, l1, l2), n1 as int, n2 as int)),
@ensures
    r is Err ==> *final(pg) == *old(pg),
    r is Err && v@.len() >= 7 && sets_given(v@) && v@[5] is Real && v@[6] is Test && dists_given(v@, 7) ==> none_or_fails(v@, dist_a(v@, 7), dist_b(v@, 7)) || test_fails(v@, v@[6]->Test_0),
    r is Ok ==> (v@.len() == 7 || v@.len() == 9 || v@.len() == 11) && final(pg).pwf() && final(pg).loaded() && final(pg).nvert == v@[2]->Int_0 * v@[4]->Int_0 && v@[2]->Int_0 > 0 && v@[4]->Int_0 > 0,
    r is Ok ==> forall|x: int, y: int| #[trigger] final(pg).g().sh().adj(x, y) == ((0 <= x == y <= v@[2]->Int_0 * v@[4]->Int_0)
        || cor_of(dist_a(v@, 7), v@[1]->Obj_0, sym_a(v@, 7), v@[2]->Int_0 as int, dist_b(v@, 7), v@[3]->Obj_0, sym_b(v@, 7), v@[4]->Int_0 as int, v@[5]->Real_0@,
                  con_of(v@[6]->Test_0, v@[1]->Obj_0, v@[3]->Obj_0), x, y)),
@at begin
    proof { lemma_product(v@); }

@fn bound_build_edges_condition_only(pg, v)
@sig (pg: &mut pygraph, v: &Vec<Val>) -> Result<bool, CmError>
@requires
    v@.len() == 6 ==> (v@[1] matches Val::Obj(l1) && v@[3] matches Val::Obj(l2) && v@[5] matches Val::Test(c) && v@[2] matches Val::Int(n1) && v@[4] matches Val::Int(n2)
        && n1 < 0x1_0000_0000 && n2 < 0x1_0000_0000 && n1 * n2 < 0xFFFF_FFF0 && ordless(con_of(c, l1, l2), n1 as int, n2 as int)),
@ensures
    r is Err ==> *final(pg) == *old(pg),
    r is Err && v@.len() == 6 && sets_given(v@) && v@[5] is Test ==> test_fails(v@, v@[5]->Test_0),
    r is Ok ==> v@.len() == 6 && final(pg).pwf() && final(pg).G@.len() == 1 && final(pg).nvert == v@[2]->Int_0 * v@[4]->Int_0,
    r is Ok ==> forall|x: int, y: int| #[trigger] final(pg).g().sh().adj(x, y) == ((0 <= x == y <= v@[2]->Int_0 * v@[4]->Int_0)
        || cor_con(v@[2]->Int_0 as int, v@[4]->Int_0 as int, con_of(v@[5]->Test_0, v@[1]->Obj_0, v@[3]->Obj_0), x, y)),

@fn CLS::__init__(set1, set2, d1, d2, is_d1_symmetric, is_d2_symmetric)
@sig (set1: PyObj, set2: PyObj, d1: Option<Metric>, d2: Option<Metric>, is_d1_symmetric: bool, is_d2_symmetric: bool) -> Result<CLS, CmError>
@requires
    set1.plen() < 0x1_0000_0000, set2.plen() < 0x1_0000_0000, set1.plen() * set2.plen() < 0xFFFF_FFF0,
@ensures
    r matches Ok(g) ==> g.ok() && !g.base.loaded() && (if MAT1 { matrix_of(g.S1, set1) } else { g.S1 == set1 }) && (if MAT2 { matrix_of(g.S2, set2) } else { g.S2 == set2 })
        && g.d1 == d1 && (d1 is Some ==> g.d2 == d2) && g.is_d1_symmetric == is_d1_symmetric && g.is_d2_symmetric == is_d2_symmetric,
    !MAT1 && !MAT2 ==> r is Ok,

@fn CLS::build_edges()
@sig (&mut self) -> Result<bool, CmError>
@requires
    old(self).ok(),
@ensures
    *final(self) == (CLS { base: final(self).base, ..*old(self) }), final(self).ok(),
    r is Err ==> *final(self) == *old(self) && old(self).unable(),
    r is Ok ==> final(self).base.loaded() && final(self).by_distance(final(self).base.g().sh(), always()) && final(self).rows_compared(),
@at begin
    proof { axiom_plain(); }

@fn CLS::build_edges_with_condition(condition_func, use_cfunc_only)
@sig (&mut self, condition_func: Cond, use_cfunc_only: bool) -> Result<bool, CmError>
@requires
    old(self).ok(), ordless(con_of(condition_func, old(self).S1, old(self).S2), old(self).n1(), old(self).n2()),
@ensures
    *final(self) == (CLS { base: final(self).base, ..*old(self) }), final(self).ok(),
    r is Err ==> *final(self) == *old(self),
    r is Err ==> throws_c(condition_func, old(self).S1, old(self).n1(), old(self).S2, old(self).n2()) || (!use_cfunc_only && old(self).unable()),
    r is Ok && !use_cfunc_only ==> final(self).by_distance(final(self).base.g().sh(), con_of(condition_func, old(self).S1, old(self).S2)) && final(self).rows_compared(),
    r is Ok && use_cfunc_only ==> final(self).by_condition(final(self).base.g().sh(), con_of(condition_func, old(self).S1, old(self).S2)),
@at begin
    proof { axiom_plain(); }

@fn CLS::_format_correspondence(indices)
@sig (&self, indices: &Pair<Vec<u64>, Vec<u64>>) -> Result<Pair<Vec<Elem>, Vec<Elem>>, CmError>
@requires
    self.ok(), inside(*self, *indices),
@ensures
    r matches Ok(t) && t.first@ == elems(self.S1, indices.first@) && t.second@ == elems(self.S2, indices.second@),

@fn CLS::get_correspondence(lower_bound, upper_bound, time_limit, use_heuristic, use_dfs, continue_search, return_indices)
@sig (&mut self, lower_bound: u64, upper_bound: u64, time_limit: Dbl, use_heuristic: bool, use_dfs: bool, continue_search: bool, return_indices: bool) -> Result<GenAnswer, CmError>
@requires
    old(self).ok(),
@ensures
    *final(self) == (CLS { base: final(self).base, ..*old(self) }), final(self).ok(), final(self).base.loaded() == old(self).base.loaded(),
    !old(self).base.loaded() ==> r is Err,
    old(self).base.loaded() ==> final(self).base.g().sh() == old(self).base.g().sh(),
    old(self).base.loaded() ==> r is Ok == (lower_bound <= imin(final(self).base.best(), upper_bound as int)),
    r matches Ok(a) ==> exists|c: Seq<u64>| #[trigger] clq_list(old(self).base.g().sh(), c) && c.len() == imin(final(self).base.best(), upper_bound as int)
        && answered(*old(self), c, a, return_indices),
    old(self).base.loaded() && use_dfs && time_limit@ <= 0real ==> is_best(old(self).base.g().sh(), imax(final(self).base.best(), lower_bound as int), upper_bound as int),
@at after /\.get_correspondence\(/
    proof {
        let s = old(self).base.g().sh();
        let c = choose|c: Seq<u64>| clq_list(s, c) && #[trigger] decoded(c, self.n2(), indices.first@, indices.second@);
        lemma_found(s, *self, c, indices);
    }

@fn CLS::get_correspondence_default()
@sig (&mut self) -> Result<GenAnswer, CmError>
@requires
    old(self).ok(),
@ensures
    *final(self) == (CLS { base: final(self).base, ..*old(self) }), final(self).ok(),
    !old(self).base.loaded() ==> r is Err,
    old(self).base.loaded() ==> final(self).base.g().sh() == old(self).base.g().sh() && is_best(old(self).base.g().sh(), imax(final(self).base.best(), 1), 0xFFFF),
    r matches Ok(a) ==> exists|c: Seq<u64>| #[trigger] clq_list(old(self).base.g().sh(), c) && c.len() == imin(final(self).base.best(), 0xFFFF) && answered(*old(self), c, a, true),

@fn CLS::all_correspondences_lambda_Elements(x)
@sig (&self, x: &Pair<Vec<u64>, Vec<u64>>) -> Result<GenAnswer, CmError>
@requires
    self.ok(), exists|s: Sh, c: Seq<u64>| #[trigger] known(s, *self, c, *x),
@ensures
    r is Ok, forall|s: Sh, c: Seq<u64>| #[trigger] known(s, *self, c, *x) ==> answered(*self, c, r->Ok_0, false),
@at begin
    proof { lemma_known(*self, *x); }

@fn CLS::all_correspondences(size, return_indices)
@sig (&self, size: u64, return_indices: bool) -> Result<GenIter, CmError>
@requires
    self.ok(),
@ensures
    r is Ok == self.base.loaded(),
    // positions as they are decoded, or the elements there
    r matches Ok(GenIter::Plain(t)) ==> return_indices && iwf(t.en@, t.G@) && t.len2 == self.n2() && t.G@[0].sh() == self.base.g().sh() && all_left(t.en@[0], self.base.g().sh(), size as int),
    r matches Ok(GenIter::Wrapped(w)) ==> !return_indices && w.ok() && w._wrapper.of() == *self && w._it.G@[0].sh() == self.base.g().sh() && all_left(w._it.en@[0], self.base.g().sh(), size as int),

@fn WrappedIterator::__init__(it, wrapper)
@sig (it: CorrespondenceIterator, wrapper: Wrapper) -> WrappedIterator
@ensures
    r._it == it, r._wrapper == wrapper,

@fn WrappedIterator::__next__()
@sig (&mut self) -> Result<GenAnswer, CmError>
@requires
    old(self).ok(),
@ensures
    r is Ok ==> final(self).ok(), final(self)._wrapper == old(self)._wrapper,
    // a correspondence whose clique was not reported before, or there is none
    r matches Ok(a) ==> exists|c: Seq<u64>| #[trigger] stepped(old(self)._it.en@[0], old(self)._it.G@[0], final(self)._it.en@[0], c)
        && answered(old(self)._wrapper.of(), c, a, false),
    r is Err ==> none_left(old(self)._it.en@[0], old(self)._it.G@[0].sh()),
@at after /_it\.next_clique\(/
    proof {
        let s = old(self)._it.G@[0].sh(); let g = self._wrapper.of(); let l2 = old(self)._it.len2 as int;
        assert forall|c: Seq<u64>, x: Pair<Vec<u64>, Vec<u64>>| #[trigger] decoded(c, l2, x.first@, x.second@) && clq_list(s, c) implies known(s, g, c, x) by {}
    }

@fn WrappedIterator::next()
@sig (&mut self) -> Result<GenAnswer, CmError>
@requires
    old(self).ok(),
@ensures
    r is Ok ==> final(self).ok(), final(self)._wrapper == old(self)._wrapper,
    r matches Ok(a) ==> exists|c: Seq<u64>| #[trigger] stepped(old(self)._it.en@[0], old(self)._it.G@[0], final(self)._it.en@[0], c)
        && answered(old(self)._wrapper.of(), c, a, false),
    r is Err ==> none_left(old(self)._it.en@[0], old(self)._it.G@[0].sh()),
