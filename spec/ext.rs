// Function objects given by the caller: what they return depends on their arguments only; they may throw, and leave the graph alone.
#[derive(Clone, Copy)]
pub struct Metric { pub id: u64 }
impl Metric {
    pub uninterp spec fn d(self, l: PyObj, i: int, j: int) -> real;
    pub uninterp spec fn fails(self, l: PyObj, i: int, j: int) -> bool;
    #[verifier::external_body]
    pub fn call(&self, l: &PyObj, i: u64, j: u64) -> (r: Result<Dbl, CmError>)
        ensures r matches Ok(v) ==> v@ == self.d(*l, i as int, j as int), r is Err ==> self.fails(*l, i as int, j as int),
    { unimplemented!() }
}
#[derive(Clone, Copy)]
pub struct Cond { pub id: u64 }
impl Cond {
    pub uninterp spec fn holds(self, l: PyObj, i: int, j: int, m: PyObj, a: int, b: int) -> bool;
    pub uninterp spec fn fails(self, l: PyObj, i: int, j: int, m: PyObj, a: int, b: int) -> bool;
    #[verifier::external_body]
    pub fn call(&self, l: &PyObj, i: u64, j: u64, m: &PyObj, a: u64, b: u64) -> (r: Result<bool, CmError>)
        ensures r matches Ok(v) ==> v == self.holds(*l, i as int, j as int, *m, a as int, b as int), r is Err ==> self.fails(*l, i as int, j as int, *m, a as int, b as int),
    { unimplemented!() }
}
// fails somewhere in sets of these sizes
pub open spec fn throws(m: Metric, l: PyObj, n: int) -> bool { exists|i: int, j: int| 0 <= i < n && 0 <= j < n && #[trigger] m.fails(l, i, j) }
pub open spec fn throws_c(c: Cond, l: PyObj, n: int, m: PyObj, k: int) -> bool { exists|i: int, j: int, a: int, b: int| 0 <= i < n && 0 <= j < n && 0 <= a < k && 0 <= b < k && #[trigger] c.fails(l, i, j, m, a, b) }
// std::sort by operator<, which is under contract
#[verifier::external_body]
pub fn vec_sort_pair_dist(v: &mut Vec<pair_dist>, lo: u64, hi: u64)
    requires lo <= hi <= old(v)@.len(),
    ensures shuffled(old(v)@, final(v)@, lo as int, hi as int),
        forall|i: int, j: int| lo <= i < j < hi ==> (#[trigger] final(v)@[i]).dist@ <= (#[trigger] final(v)@[j]).dist@,
{ unimplemented!() }
#[verifier::external_body]
pub fn dbl_mul(a: Dbl, b: Dbl) -> (r: Dbl) ensures r@ == a@ * b@, { Dbl { x: a.x * b.x } }
