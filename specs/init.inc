verus! {
// ---- a random number generator: any answer inside the requested range
#[verifier::external_body]
pub struct R { x: u64 }
impl Clone for R { #[verifier::external_body] fn clone(&self) -> (r: R) { R { x: self.x } } }
impl R {
    #[verifier::external_body]
    pub fn gen_range(&mut self, g: Range<usize>) -> (r: usize)
        requires g.start < g.end,
        ensures g.start <= r < g.end,
    { unimplemented!() }
}
/// The distance from p to the nearest of the chosen points.
pub open spec fn reach(m: DistanceMetric, p: P, s: Seq<P>) -> int
    decreases s.len()
{
    if s.len() == 0 { 0 } else {
        let l = rank(mspec(m, p, s.last()));
        if s.len() == 1 || l < reach(m, p, s.drop_last()) { l } else { reach(m, p, s.drop_last()) }
    }
}
pub proof fn lemma_reach(m: DistanceMetric, p: P, s: Seq<P>)
    requires s.len() > 0,
    ensures exists|j: int| #![trigger s[j]] 0 <= j < s.len() && reach(m, p, s) == rank(mspec(m, p, s[j])),
        forall|j: int| #![trigger s[j]] 0 <= j < s.len() ==> reach(m, p, s) <= rank(mspec(m, p, s[j])),
    decreases s.len(),
{
    let t = s.drop_last();
    assert(s.last() == s[s.len() - 1]);
    if s.len() > 1 {
        lemma_reach(m, p, t);
        let j = choose|j: int| #![trigger t[j]] 0 <= j < t.len() && reach(m, p, t) == rank(mspec(m, p, t[j]));
        assert(s[j] == t[j]);
        assert forall|j: int| #![trigger s[j]] 0 <= j < s.len() implies reach(m, p, s) <= rank(mspec(m, p, s[j])) by {
            if j < t.len() { assert(t[j] == s[j]); }
        }
    } else {
        assert(rank(mspec(m, p, s[0])) == reach(m, p, s));
    }
}
/// An entry that has been chosen is at distance zero, and nothing is closer.
pub proof fn lemma_reach_self(m: DistanceMetric, d: Seq<P>, s: Seq<P>, p: P, k: int)
    requires pfin(p), allfin(s), 0 <= k < s.len(), s[k] == p,
    ensures reach(m, p, s) == 0,
{
    lemma_reach(m, p, s);
    axiom_zero();
    lemma_distance(m, p, p);
    let j = choose|j: int| #![trigger s[j]] 0 <= j < s.len() && reach(m, p, s) == rank(mspec(m, p, s[j]));
    lemma_distance(m, p, s[j]);
    assert(s[k] == p);
}
pub open spec fn picks(d: Seq<P>, x: Seq<int>) -> Seq<P> { Seq::new(x.len(), |i: int| d[x[i]]) }
pub open spec fn entries(d: Seq<P>, x: Seq<int>) -> bool { forall|i: int| #![trigger x[i]] 0 <= i < x.len() ==> 0 <= x[i] < d.len() }
/// Pick i is as far from the picks before it as any entry of the data set.
pub open spec fn farthest(d: Seq<P>, m: DistanceMetric, x: Seq<int>, i: int) -> bool {
    forall|j: int| #![trigger d[j]] 0 <= j < d.len() ==> reach(m, d[j], picks(d, x.take(i))) <= reach(m, d[x[i]], picks(d, x.take(i)))
}
pub open spec fn spread(d: Seq<P>, m: DistanceMetric, x: Seq<int>) -> bool {
    forall|i: int| #![trigger x[i]] 1 <= i < x.len() ==> farthest(d, m, x, i)
}
//@struct Initializer
impl Initializer {
//@fn Initializer::initialize
//@for C15
    requires allfin(dataset@),
    ensures r@.len() == if k < dataset@.len() { k as nat } else { dataset@.len() }, // @C14 @C15
        k >= dataset@.len() ==> r@ == dataset@,
        k < dataset@.len() ==> exists|x: Seq<int>| #![trigger picks(dataset@, x)] entries(dataset@, x) && r@ == picks(dataset@, x)
            && (*self is Random ==> x.no_duplicates()) && (*self is KmeansPlusPlus ==> spread(dataset@, *metric, x)),
//@names dataset k metric centroids rng
//@nloops 1
//@loop 0
    invariant it0_n <= it0_end, it0_end == dataset@.len(), centroids@ == dataset@.take(it0_n as int),
    decreases it0_end - it0_n,
//@at start
    proof {
        if k == 0 && dataset@.len() > 0 { let x = Seq::<int>::empty(); assert(Seq::<P>::empty() =~= picks(dataset@, x)); }
        if dataset@.len() == 0 { assert(Seq::<P>::empty() =~= dataset@); }
    }
//@at loop 0 start
    proof { assert(dataset@.take(it0_n as int).push(dataset@[it0_n as int]) =~= dataset@.take(it0_n + 1)); }
//@at after loop 0
    proof { assert(dataset@.take(dataset@.len() as int) =~= dataset@); }
//@end
//@fn Initializer::random
//@for C15
    requires k < dataset@.len(),
    ensures r@.len() == k, // @C14 @C15
        exists|x: Seq<int>| #![trigger picks(dataset@, x)] entries(dataset@, x) && r@ == picks(dataset@, x) && x.no_duplicates(),
//@attrs
#[verifier::exec_allows_no_decreases_clause]
//@names dataset k rng selected centroids index point centroid
//@nloops 1
//@loop 0
    invariant k < dataset@.len(), selected@.len() == dataset@.len(), centroids@.len() <= k,
        entries(dataset@, x), centroids@ =~= picks(dataset@, x), x.no_duplicates(),
        forall|i: int| #![trigger selected@[i]] 0 <= i < selected@.len() ==> (selected@[i] <==> x.contains(i)),
//@at start
    let ghost mut x: Seq<int> = Seq::empty();
//@at before set selected[index]
    proof {
        let y = x.push(index as int);
        assert(picks(dataset@, y) =~= picks(dataset@, x).push(dataset@[index as int]));
        assert forall|i: int| #![trigger y.contains(i)] y.contains(i) <==> x.contains(i) || i == index by {
            if x.contains(i) { let j = choose|j: int| 0 <= j < x.len() && x[j] == i; assert(y[j] == i); }
            assert(y[x.len() as int] == index);
            if y.contains(i) && i != index { let j = choose|j: int| 0 <= j < y.len() && y[j] == i; assert(x[j] == i); }
        }
        x = y;
    }
//@end
//@fn Initializer::kmeans_plus_plus
//@for C15
    requires 0 < k < dataset@.len(), allfin(dataset@),
    ensures r@.len() == k, // @C14 @C15
        exists|x: Seq<int>| #![trigger picks(dataset@, x)] entries(dataset@, x) && r@ == picks(dataset@, x) && spread(dataset@, *metric, x),
//@attrs
#[verifier::loop_isolation(true)]
//@names dataset k metric rng selected centroids index furthest point min_distance centroid a b min
//@nloops 3
//@loop 0
    invariant 0 < k < dataset@.len(), allfin(dataset@), selected@.len() == dataset@.len(), 0 < centroids@.len() <= k,
        entries(dataset@, x), centroids@ =~= picks(dataset@, x), spread(dataset@, *metric, x),
        forall|i: int| #![trigger selected@[i]] 0 <= i < selected@.len() ==> (selected@[i] <==> x.contains(i)),
    ensures centroids@.len() == k,
    decreases k - centroids@.len(),
//@loop 1
    invariant it1_n <= it1_end, it1_end == dataset@.len(), allfin(dataset@), selected@.len() == dataset@.len(), centroids@.len() > 0,
        entries(dataset@, x), centroids@ =~= picks(dataset@, x),
        forall|i: int| #![trigger selected@[i]] 0 <= i < selected@.len() ==> (selected@[i] <==> x.contains(i)),
        acc1 is None <==> it1_n == 0,
        acc1 is Some ==> best(dataset@, *metric, centroids@, it1_n as int, (acc1->0).0 as int, (acc1->0).1),
    decreases it1_end - it1_n,
//@loop 2
    invariant it2_n <= it2_end, it2_end == centroids@.len(), centroids@ =~= picks(dataset@, x), entries(dataset@, x), allfin(dataset@), pfin(*point),
        acc2 is None <==> it2_n == 0,
        acc2 is Some ==> !nan(acc2->0) && rank(acc2->0) == reach(*metric, *point, centroids@.take(it2_n as int)),
    decreases it2_end - it2_n,
//@at before let index
    let ghost mut x: Seq<int> = Seq::empty();
//@at before set selected[index] #1
    proof {
        x = Seq::empty().push(index as int);
        assert forall|i: int| #![trigger x.contains(i)] x.contains(i) <==> i == index by { assert(x[0] == index); }
    }
//@at before loop 1
    let ghost typed: Option<(usize, F)> = acc1;
//@at loop 1 start
    proof {
        axiom_zero();
        let (i, c) = (it1_n as int, centroids@);
        assert(pfin(dataset@[i]));
        if selected@[i] {
            let j = choose|j: int| 0 <= j < x.len() && x[j] == i;
            assert(c[j] == dataset@[i]);
            assert(allfin(c)) by { assert forall|t: int| #![trigger c[t]] 0 <= t < c.len() implies pfin(c[t]) by { assert(c[t] == dataset@[x[t]]); } }
            lemma_reach_self(*metric, dataset@, c, dataset@[i], j);
        }
        assert(c.take(c.len() as int) =~= c);
    }
//@at before loop 2
    let ghost typed: Option<F> = acc2;
//@at loop 2 start
    proof {
        let c = centroids@[it2_n as int];
        assert(centroids@.take(it2_n + 1).drop_last() =~= centroids@.take(it2_n as int));
        assert(centroids@.take(it2_n + 1).last() == c);
        lemma_distance(*metric, *point, c);
    }
//@at before set selected[index] #2
    proof { lemma_pick_farthest(dataset@, *metric, x, index as int, (furthest->0).1); }
//@at after set selected[index] #2
    proof {
        let y = x.push(index as int);
        assert forall|i: int| #![trigger y.contains(i)] y.contains(i) <==> x.contains(i) || i == index by {
            if x.contains(i) { let j = choose|j: int| 0 <= j < x.len() && x[j] == i; assert(y[j] == i); }
            assert(y[x.len() as int] == index);
            if y.contains(i) && i != index { let j = choose|j: int| 0 <= j < y.len() && y[j] == i; assert(x[j] == i); }
        }
        x = y;
    }
//@end
}
/// b is one of the farthest of the first n entries, at distance v.
pub open spec fn best(d: Seq<P>, m: DistanceMetric, c: Seq<P>, n: int, b: int, v: F) -> bool {
    &&& 0 <= b < n
    &&& !nan(v)
    &&& rank(v) == reach(m, d[b], c)
    &&& forall|j: int| #![trigger d[j]] 0 <= j < n ==> reach(m, d[j], c) <= rank(v)
}
pub proof fn lemma_pick_farthest(d: Seq<P>, m: DistanceMetric, x: Seq<int>, b: int, v: F)
    requires entries(d, x), spread(d, m, x), x.len() > 0, best(d, m, picks(d, x), d.len() as int, b, v),
    ensures spread(d, m, x.push(b)), entries(d, x.push(b)), picks(d, x.push(b)) =~= picks(d, x).push(d[b]),
{
    let y = x.push(b);
    assert forall|i: int| #![trigger y[i]] 1 <= i < y.len() implies farthest(d, m, y, i) by {
        if i < x.len() {
            assert(farthest(d, m, x, i)) by { assert(x[i] == y[i]); }
            assert(x.take(i) =~= y.take(i));
        } else {
            assert(y.take(i) =~= x);
        }
    }
}
} // verus!
