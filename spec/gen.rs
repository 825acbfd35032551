// What the classes of correspondence graphs use of the objects given to them.
pub open spec fn elems(o: PyObj, l: Seq<u64>) -> Seq<Elem> { Seq::new(l.len(), |k: int| elem(o, l[k] as int)) }
#[verifier::external_body]
pub fn py_len(o: &PyObj) -> (r: u64) ensures r == o.plen(), { unimplemented!() }
// o[i]: outside the length it would raise IndexError
#[verifier::external_body]
pub fn item(o: &PyObj, i: u64) -> (r: Elem)
    requires i < o.plen(),
    ensures r == elem(*o, i as int),
{ unimplemented!() }
// o[l] with a list of positions gives those rows of an array
#[verifier::external_body]
pub fn rows_at(o: &PyObj, l: &Vec<u64>) -> (r: Vec<Elem>)
    requires o.dense(), forall|k: int| 0 <= k < l@.len() ==> #[trigger] l@[k] < o.plen(),
    ensures r@ == elems(*o, l@),
{ unimplemented!() }
// the rows of a are those of x as doubles
pub uninterp spec fn as_doubles(e: Elem) -> Elem;
pub open spec fn matrix_of(a: PyObj, x: PyObj) -> bool { a.plen() == x.plen() && forall|i: int| 0 <= i < x.plen() ==> #[trigger] elem(a, i) == as_doubles(elem(x, i)) }
// numpy.float64(x) keeps the layout of an array that has doubles already
#[verifier::external_body]
pub fn np_float64(x: &PyObj) -> (r: Result<PyObj, CmError>) ensures r matches Ok(a) ==> matrix_of(a, *x), { unimplemented!() }
#[verifier::external_body]
pub fn np_array_c(x: &PyObj) -> (r: Result<PyObj, CmError>) ensures r matches Ok(a) ==> matrix_of(a, *x) && a.dense(), { unimplemented!() }
// the function used where no distance is given; for arrays it is under contract in rows.spec, for other objects it throws
pub uninterp spec fn plain() -> Metric;
#[verifier::external_body]
pub fn plain_metric() -> (r: Metric) ensures r == plain(), { unimplemented!() }
#[verifier::external_body]
pub proof fn axiom_plain()
    ensures forall|l: PyObj, i: int, j: int| l.dense() && 0 <= i < l.plen() && 0 <= j < l.plen() ==> euclid(l, i, j, #[trigger] plain().d(l, i, j)),
        forall|l: PyObj, i: int, j: int| l.dense() && 0 <= i < l.plen() && 0 <= j < l.plen() ==> !#[trigger] plain().fails(l, i, j),
{}
// arguments put together in a list
#[derive(Clone, Copy)]
pub enum Val { This, Int(u64), Truth(bool), Real(Dbl), Obj(PyObj), Dist(Metric), Test(Cond) }
#[verifier::external_body]
pub fn vals_add(a: Vec<Val>, b: Vec<Val>) -> (r: Vec<Val>) ensures r@ == a@ + b@, { unimplemented!() }
