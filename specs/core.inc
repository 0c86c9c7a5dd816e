verus! {
//@struct CoreDistance
/// x is the k-th smallest distance from the query: fewer than k points are nearer, at least k are as near.
pub open spec fn kth(d: Seq<P>, m: DistanceMetric, q: P, k: int, x: F) -> bool {
    &&& exists|i: int| #![trigger d[i]] 0 <= i < d.len() && x == mspec(m, d[i], q)
    &&& Set::<int>::range(0, d.len() as int).filter(|i: int| rank(mspec(m, d[i], q)) < rank(x)).len() < k
    &&& Set::<int>::range(0, d.len() as int).filter(|i: int| rank(mspec(m, d[i], q)) <= rank(x)).len() >= k
}
pub open spec fn indices_of(s: Seq<Neighbor>) -> Seq<int> { s.map_values(|x: Neighbor| x.index as int) }
pub proof fn lemma_kth(t: &KDTree, q: P, s: Seq<Neighbor>)
    requires s.len() > 0, s.len() <= t.dataset@.len(),
        forall|j: int| #![trigger s[j]] 0 <= j < s.len() ==> s[j].index < t.dataset@.len() && s[j].distance == t.dist(q, s[j].index as int),
        forall|a: int, b: int| #![trigger s[a], s[b]] 0 <= a < b < s.len() ==> s[a].index != s[b].index && rank(s[a].distance) <= rank(s[b].distance),
        nothing_nearer(t, q, s),
    ensures kth(t.dataset@, *t.metric, q, s.len() as int, s.last().distance),
{
    let (d, m, x) = (t.dataset@, *t.metric, s.last().distance);
    let near = Set::<int>::range(0, d.len() as int).filter(|i: int| rank(mspec(m, d[i], q)) < rank(x));
    let upto = Set::<int>::range(0, d.len() as int).filter(|i: int| rank(mspec(m, d[i], q)) <= rank(x));
    let is = indices_of(s);
    let short = is.drop_last();
    assert(is.no_duplicates());
    assert(short.no_duplicates());
    is.unique_seq_to_set();
    short.unique_seq_to_set();
    assert(near.subset_of(short.to_set())) by {
        assert forall|i: int| near.contains(i) implies #[trigger] short.to_set().contains(i) by {
            assert(t.dist(q, i) == mspec(m, d[i], q));
            let j = choose|j: int| 0 <= j < s.len() && s[j].index == i;
            assert(0 <= j < s.len() && s[j].index == i);
            assert(s[s.len() - 1] == s.last());
            if j == s.len() - 1 { assert(s.last().distance == t.dist(q, i)); }
            assert(short[j] == i);
        }
    }
    assert(is.to_set().subset_of(upto)) by {
        assert forall|i: int| is.to_set().contains(i) implies #[trigger] upto.contains(i) by {
            let j = choose|j: int| 0 <= j < is.len() && is[j] == i;
            assert(s[j].index == i);
            assert(s[j].distance == t.dist(q, i));
            if j < s.len() - 1 { assert(rank(s[j].distance) <= rank(s[s.len() - 1].distance)); }
        }
    }
    vstd::set_lib::lemma_len_subset(near, short.to_set());
    vstd::set_lib::lemma_len_subset(is.to_set(), upto);
    assert(s.last() == s[s.len() - 1]);
    let li = s.last().index as int;
    assert(x == t.dist(q, li));
    assert(x == mspec(m, d[li], q));
}
impl CoreDistance {
//@fn CoreDistance::new
    requires allfin(dataset@),
    ensures r.distances@.len() == dataset@.len(),
        forall|i: int| #![trigger r.distances@[i]] 0 <= i < dataset@.len() ==>
            kth(dataset@, *metric, dataset@[i], if min_samples + 1 < dataset@.len() { min_samples + 1 } else { dataset@.len() as int }, r.distances@[i]),
//@names dataset min_samples metric k dataset_vec neighbor_search distances index point neighbors core_neighbor
//@nloops 1
//@loop 0
    invariant it0_n <= it0_end, it0_end == dataset@.len(), allfin(dataset@), distances@.len() == it0_n,
        k == if min_samples + 1 < dataset@.len() { min_samples + 1 } else { dataset@.len() as int }, dataset@.len() > 0,
        neighbor_search.wf(), neighbor_search.dataset@ == dataset@, *neighbor_search.metric == *metric,
        forall|i: int| #![trigger distances@[i]] 0 <= i < it0_n ==> kth(dataset@, *metric, dataset@[i], k as int, distances@[i]),
    decreases it0_end - it0_n,
//@at before loop 0
    let ghost typed: Seq<F> = distances@;
//@at after let neighbors
    proof { lemma_kth(&neighbor_search, *point, neighbors@); }
//@end
//@fn CoreDistance::distance_at
    requires index < self.distances@.len(),
    ensures r == self.distances@[index as int],
//@names index
//@end
}
} // verus!
