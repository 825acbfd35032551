// Sets of elements: a length, and elements by position.
#[derive(Clone, Copy)]
pub struct Elem { pub id: u64 }
impl PyObj {
    pub uninterp spec fn plen(self) -> nat;
    pub uninterp spec fn elem(self, i: int) -> Elem;
    // a matrix of doubles that lies in memory row by row and may be written to: what the functions for arrays take
    pub uninterp spec fn dense(self) -> bool;
}
pub open spec fn elem(o: PyObj, i: int) -> Elem { o.elem(i) }
// a row of a matrix
impl Elem { pub uninterp spec fn coords(self) -> Seq<real>; }
pub open spec fn squares(a: Seq<real>) -> real decreases a.len() { if a.len() == 0 { 0real } else { squares(a.drop_last()) + a.last() * a.last() } }
pub open spec fn row_minus(a: Seq<real>, b: Seq<real>) -> Seq<real> { Seq::new(a.len(), |k: int| a[k] - b[k]) }
// d is the distance of two rows: the root of the sum of the squared differences
pub open spec fn euclid(l: PyObj, i: int, j: int, d: real) -> bool { d >= 0real && d * d == squares(row_minus(elem(l, i).coords(), elem(l, j).coords())) }
