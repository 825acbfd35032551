// Rows of an array, as Eigen gives them.
#[derive(Clone, Copy)]
pub struct Row { pub id: u64 }
impl Row { pub uninterp spec fn view(&self) -> Seq<real>; }
impl PyObj {
    pub uninterp spec fn width(self) -> nat;
    // outside the rows it would read outside the array
    #[verifier::external_body]
    pub fn row(&self, i: i64) -> (r: Row)
        requires self.dense(), 0 <= i < self.plen(),
        ensures r@ == elem(*self, i as int).coords(), r@.len() == self.width(),
    { unimplemented!() }
}
#[verifier::external_body]
pub fn row_sub(a: Row, b: Row) -> (r: Row) requires a@.len() == b@.len(), ensures r@ == row_minus(a@, b@), { unimplemented!() }
#[verifier::external_body]
pub fn row_squares(a: Row) -> (r: Dbl) ensures r@ == squares(a@), { unimplemented!() }
#[verifier::external_body]
pub fn row_norm(a: Row) -> (r: Dbl) ensures r@ >= 0real, r@ * r@ == squares(a@), { unimplemented!() }
#[verifier::external_body]
pub fn dbl_sqrt(a: Dbl) -> (r: Dbl) requires a@ >= 0real, ensures r@ >= 0real, r@ * r@ == a@, { unimplemented!() }
