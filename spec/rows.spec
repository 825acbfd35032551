@lib
pub proof fn lemma_squares(a: Seq<real>)
    ensures squares(a) >= 0real,
    decreases a.len(),
{
    if a.len() > 0 { lemma_squares(a.drop_last()); let x = a.last(); assert(x * x >= 0real) by(nonlinear_arith); }
}
pub proof fn lemma_squares_turned(a: Seq<real>, b: Seq<real>)
    requires a.len() == b.len(),
    ensures squares(row_minus(a, b)) == squares(row_minus(b, a)),
    decreases a.len(),
{
    if a.len() > 0 {
        let d = row_minus(a, b); let e = row_minus(b, a);
        lemma_squares_turned(a.drop_last(), b.drop_last());
        assert(d.drop_last() =~= row_minus(a.drop_last(), b.drop_last()));
        assert(e.drop_last() =~= row_minus(b.drop_last(), a.drop_last()));
        let x = d.last(); let y = e.last();
        assert(x * x == y * y) by(nonlinear_arith) requires x == -y;
    }
}

@fn euc_dist0(p, q)
@requires
    p@.len() == q@.len(),
@ensures
    r@ >= 0real, r@ * r@ == squares(row_minus(p@, q@)), r@ * r@ == squares(row_minus(q@, p@)),
@at begin
    proof { lemma_squares(row_minus(p@, q@)); lemma_squares_turned(p@, q@); }

@fn dummy_comparison(ll, i, j)
@requires
    ll.dense(), i < ll.plen(), j < ll.plen(), ll.plen() < 0x1_0000_0000,
@ensures
    euclid(*ll, i as int, j as int, r@),
