// Doubles are read as the real numbers they stand for: no NaN, no infinity, and sums, differences and products are taken as exact.
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Dbl { x: f64 }
impl Dbl { pub uninterp spec fn view(&self) -> real; }
#[verifier::external_body]
pub fn arb_dbl() -> Dbl { unimplemented!() }
#[verifier::external_body]
pub fn dbl_lt(a: Dbl, b: Dbl) -> (r: bool) ensures r == (a@ < b@), { a.x < b.x }
#[verifier::external_body]
pub fn dbl_le(a: Dbl, b: Dbl) -> (r: bool) ensures r == (a@ <= b@), { a.x <= b.x }
#[verifier::external_body]
pub fn dbl_gt(a: Dbl, b: Dbl) -> (r: bool) ensures r == (a@ > b@), { a.x > b.x }
#[verifier::external_body]
pub fn dbl_ge(a: Dbl, b: Dbl) -> (r: bool) ensures r == (a@ >= b@), { a.x >= b.x }
#[verifier::external_body]
pub fn dbl_eq(a: Dbl, b: Dbl) -> (r: bool) ensures r == (a@ == b@), { a.x == b.x }
#[verifier::external_body]
pub fn dbl_ne(a: Dbl, b: Dbl) -> (r: bool) ensures r == (a@ != b@), { a.x != b.x }
#[verifier::external_body]
pub fn dbl_of_u64(n: u64) -> (r: Dbl) ensures r@ == n as real, { Dbl { x: n as f64 } }
#[verifier::external_body]
pub fn dbl_add(a: Dbl, b: Dbl) -> (r: Dbl) ensures r@ == a@ + b@, { Dbl { x: a.x + b.x } }
#[verifier::external_body]
pub fn dbl_sub(a: Dbl, b: Dbl) -> (r: Dbl) ensures r@ == a@ - b@, { Dbl { x: a.x - b.x } }
#[verifier::external_body]
pub fn dbl_neg(a: Dbl) -> (r: Dbl) ensures r@ == -a@, { Dbl { x: -a.x } }
pub fn dbl_min(a: Dbl, b: Dbl) -> (r: Dbl) ensures r == if b@ < a@ { b } else { a } { if dbl_lt(b, a) { b } else { a } }
pub fn dbl_max(a: Dbl, b: Dbl) -> (r: Dbl) ensures r == if a@ < b@ { b } else { a } { if dbl_lt(a, b) { b } else { a } }
pub fn vec_resize_dbl(v: &mut Vec<Dbl>, n: u64)
    ensures final(v)@.len() == n, forall|i: int| 0 <= i < n && i < old(v)@.len() ==> #[trigger] final(v)@[i] == old(v)@[i],
        forall|i: int| old(v)@.len() <= i < n ==> (#[trigger] final(v)@[i])@ == 0real,
{
    if n >= 0x1000_0000_0000 { bad_alloc(); }
    while v.len() > n as usize
        invariant n <= usize::MAX, v@.len() <= old(v)@.len(), v@.len() >= n || v@.len() == old(v)@.len(),
            forall|k: int| 0 <= k < v@.len() ==> #[trigger] v@[k] == old(v)@[k],
        decreases v@.len(),
    { let _ = v.pop(); }
    while v.len() < n as usize
        invariant v@.len() <= n, v@.len() >= old(v)@.len() || v@.len() == n,
            forall|k: int| 0 <= k < v@.len() && k < old(v)@.len() ==> #[trigger] v@[k] == old(v)@[k],
            forall|k: int| old(v)@.len() <= k < v@.len() ==> (#[trigger] v@[k])@ == 0real,
        decreases n - v@.len(),
    { let z = dbl_of_u64(0); v.push(z); }
}
pub fn vec_new_dbl(n: u64) -> (r: Vec<Dbl>)
    ensures r@.len() == n, forall|k: int| 0 <= k < n ==> (#[trigger] r@[k])@ == 0real,
{ let mut v: Vec<Dbl> = Vec::new(); vec_resize_dbl(&mut v, n); v }
