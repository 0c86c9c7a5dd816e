verus! {
//@struct DistanceMetric #[derive(Clone,Copy)]
/// The sum of the squared differences of the first k coordinates.
pub open spec fn sqsum(a: P, b: P, k: int) -> F
    decreases k
{
    if k <= 0 { fzero() } else { fadd(sqsum(a, b, k - 1), fsq(fsub(pc(a, k - 1), pc(b, k - 1)))) }
}
pub open spec fn mspec(m: DistanceMetric, a: P, b: P) -> F {
    match m {
        DistanceMetric::Euclidean => fsqrt(sqsum(a, b, pdim() as int)),
        DistanceMetric::SquaredEuclidean => sqsum(a, b, pdim() as int),
    }
}
pub open spec fn aspec(m: DistanceMetric, delta: F) -> F {
    match m {
        DistanceMetric::Euclidean => fsqrt(fsq(delta)),
        DistanceMetric::SquaredEuclidean => fsq(delta),
    }
}
impl DistanceMetric {
//@fn DistanceMetric::measure
    ensures r == mspec(*self, *lhs, *rhs),
    decreases if *self is Euclidean { 1int } else { 0int },
//@names lhs rhs total delta
//@nloops 1
//@loop 0
    invariant it0_n <= it0_end, it0_end == pdim(), it0_src@.len() == pdim(),
        forall|i: int| #![trigger it0_src@[i]] 0 <= i < pdim() ==> it0_src@[i] == fsub(pc(*lhs, i), pc(*rhs, i)),
        acc0 == sqsum(*lhs, *rhs, it0_n as int),
    decreases it0_end - it0_n,
//@at before loop 0
    proof { axiom_psub(*lhs, *rhs); }
//@end
//@fn DistanceMetric::measure_axis
    ensures r == aspec(*self, delta),
    decreases if *self is Euclidean { 1int } else { 0int },
//@names delta
//@end
}
pub proof fn lemma_sqsum(a: P, b: P, k: int)
    requires pfin(a), pfin(b), 0 <= k <= pdim(),
    ensures !nan(sqsum(a, b, k)), rank(sqsum(a, b, k)) >= 0, sqsum(a, b, k) == sqsum(b, a, k),
        forall|c: int| #![trigger pc(a, c)] 0 <= c < k ==> rank(fsq(fsub(pc(a, c), pc(b, c)))) <= rank(sqsum(a, b, k)),
    decreases k
{
    axiom_zero();
    if k > 0 {
        lemma_sqsum(a, b, k - 1);
        let (x, y) = (pc(a, k - 1), pc(b, k - 1));
        axiom_sub(x, y);
        axiom_sq(fsub(x, y));
        axiom_sq_sub(x, y);
        axiom_add_nonneg(sqsum(a, b, k - 1), fsq(fsub(x, y)));
    }
}
pub proof fn lemma_same_zero(a: P, k: int)
    requires pfin(a), 0 <= k <= pdim(),
    ensures sqsum(a, a, k) == fzero(),
    decreases k
{
    if k > 0 {
        lemma_same_zero(a, k - 1);
        axiom_sub(pc(a, k - 1), pc(a, k - 1));
        axiom_sq(fsub(pc(a, k - 1), pc(a, k - 1)));
        axiom_add_zero();
    }
}
/// Distances of finite points are never NaN or negative, zero for equal points, symmetric.
pub proof fn lemma_distance(m: DistanceMetric, a: P, b: P)
    requires pfin(a), pfin(b),
    ensures !nan(mspec(m, a, b)), rank(mspec(m, a, b)) >= 0, mspec(m, a, b) == mspec(m, b, a), mspec(m, a, a) == fzero(),
{
    lemma_sqsum(a, b, pdim() as int);
    lemma_same_zero(a, pdim() as int);
    axiom_sqrt(sqsum(a, b, pdim() as int));
    axiom_sqrt_zero();
}
/// What lies beyond a splitting plane is at least as far away as the plane.
pub proof fn lemma_plane(m: DistanceMetric, x: P, p: P, q: P, c: int)
    requires pfin(x), pfin(p), pfin(q), 0 <= c < pdim(),
        (rank(pc(x, c)) <= rank(pc(p, c)) && rank(pc(p, c)) <= rank(pc(q, c))) || (rank(pc(q, c)) <= rank(pc(p, c)) && rank(pc(p, c)) <= rank(pc(x, c))),
    ensures !nan(aspec(m, fsub(pc(q, c), pc(p, c)))), rank(aspec(m, fsub(pc(q, c), pc(p, c)))) <= rank(mspec(m, x, q)),
{
    let (xc, p_c, qc) = (pc(x, c), pc(p, c), pc(q, c));
    axiom_finite(xc); axiom_finite(p_c); axiom_finite(qc);
    axiom_sub(xc, qc); axiom_sub(qc, xc); axiom_sub(qc, p_c); axiom_sub(p_c, qc);
    axiom_sq_sub(xc, qc); axiom_sq_sub(qc, p_c);
    axiom_sq(fsub(qc, p_c)); axiom_sq(fsub(xc, qc));
    lemma_sqsum(x, q, pdim() as int);
    if rank(xc) <= rank(p_c) && rank(p_c) <= rank(qc) {
        axiom_sub_mono(xc, p_c, qc);
        axiom_sq_mono(fsub(qc, p_c), fsub(qc, xc));
    } else {
        axiom_sub_mono(p_c, xc, qc);
        axiom_sq_mono(fsub(p_c, qc), fsub(xc, qc));
    }
    assert(rank(fsq(fsub(xc, qc))) <= rank(sqsum(x, q, pdim() as int)));
    axiom_sqrt(fsq(fsub(qc, p_c)));
    axiom_sqrt_mono(fsq(fsub(qc, p_c)), sqsum(x, q, pdim() as int));
}
} // verus!
