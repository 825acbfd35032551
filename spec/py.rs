// What the Python classes use of Python itself.  Integers are those of 64 bits without sign: that none leaves this range is proved where it is computed.
pub struct Triple<A, B, C> { pub first: A, pub second: B, pub third: C }
// dict with integer keys
#[verifier::external_body]
#[verifier::reject_recursive_types(V)]
pub struct Dict<V> { d: Vec<V> }
impl<V> Dict<V> {
    pub uninterp spec fn view(&self) -> Map<u64, V>;
    #[verifier::external_body]
    pub fn new() -> (r: Dict<V>) ensures r@ == Map::<u64, V>::empty(), { unimplemented!() }
    #[verifier::external_body]
    pub fn set(&mut self, k: u64, v: V) ensures final(self)@ == old(self)@.insert(k, v), { unimplemented!() }
    // d[k]: a missing key would raise KeyError
    #[verifier::external_body]
    pub fn at(&self, k: u64) -> (r: &V)
        requires self@.dom().contains(k),
        ensures *r == self@[k],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn has(&self, k: u64) -> (r: bool) ensures r == self@.dom().contains(k), { unimplemented!() }
}
// the elements of a set in some order
pub open spec fn orders(l: Seq<u64>, s: Set<u64>) -> bool {
    &&& forall|i: int| 0 <= i < l.len() ==> s.contains(#[trigger] l[i])
    &&& forall|x: u64| #[trigger] s.contains(x) ==> exists|i: int| 0 <= i < l.len() && l[i] == x
    &&& l.no_duplicates()
}
#[verifier::external_body]
pub fn set_order(s: &StdSet) -> (r: Vec<u64>) ensures orders(r@, s@), { unimplemented!() }
#[verifier::external_body]
pub fn set_meet(a: &StdSet, b: &StdSet) -> (r: StdSet)
    ensures forall|x: u64| #[trigger] r@.contains(x) == (a@.contains(x) && b@.contains(x)),
{ unimplemented!() }
#[verifier::external_body]
pub fn set_of(l: &Vec<u64>) -> (r: StdSet) ensures forall|x: u64| #[trigger] r@.contains(x) == l@.contains(x), { unimplemented!() }
// a literal n / d
#[verifier::external_body]
pub fn dbl_lit(n: i64, d: i64) -> (r: Dbl)
    requires d > 0,
    ensures r@ == n as real / d as real,
{ unimplemented!() }
