verus! {
broadcast use vstd::std_specs::hash::group_hash_axioms;
pub axiom fn axiom_zero_finite()
    ensures finite(fzero());
pub axiom fn axiom_zero_plus(x: F)
    requires finite(x),
    ensures finite(fadd(fzero(), x)), rank(fadd(fzero(), x)) == rank(x);

pub proof fn lemma_zero_finite()
    ensures pfin(pzero()),
{
    axiom_pzero();
    axiom_zero_finite();
}
// ---- who is assigned where
/// The points assigned to x among the first k, ascending.
pub open spec fn mem(a: Seq<int>, x: int, k: int) -> Seq<usize>
    decreases k
{
    if k <= 0 { Seq::empty() } else if a[k - 1] == x { mem(a, x, k - 1).push((k - 1) as usize) } else { mem(a, x, k - 1) }
}
pub proof fn lemma_mem(a: Seq<int>, x: int, k: int)
    requires 0 <= k <= a.len() <= usize::MAX,
    ensures mem(a, x, k).len() <= k, mem(a, x, k).no_duplicates(),
        forall|i: usize| #![trigger mem(a, x, k).contains(i)] mem(a, x, k).contains(i) <==> i < k && a[i as int] == x,
        ascending(mem(a, x, k), k),
    decreases k,
{
    if k > 0 {
        lemma_mem(a, x, k - 1);
        let (s, t) = (mem(a, x, k - 1), mem(a, x, k));
        if a[k - 1] == x {
            assert(t[s.len() as int] == k - 1);
            assert forall|i: usize| #![trigger t.contains(i)] t.contains(i) <==> i < k && a[i as int] == x by {
                if s.contains(i) { let j = choose|j: int| 0 <= j < s.len() && s[j] == i; assert(t[j] == i); }
                if t.contains(i) && i != k - 1 { let j = choose|j: int| 0 <= j < t.len() && t[j] == i; assert(s[j] == i); assert(s.contains(i)); }
            }
            assert forall|i: int, j: int| 0 <= i < j < t.len() implies t[i] != t[j] by { assert(s.contains(s[i])); if j < s.len() { assert(s.contains(s[j])); } }
        }
    }
}
/// Strictly ascending indices below n.
pub open spec fn ascending(s: Seq<usize>, n: int) -> bool {
    &&& forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> s[i] < n
    &&& forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() ==> s[i] < s[j]
}
/// The means of all groups of points are finite (their coordinate sums do not overflow).
pub open spec fn summable(d: Seq<P>) -> bool {
    forall|s: Seq<usize>| #![trigger pmean(d, s)] s.len() > 0 && ascending(s, d.len() as int) ==> pfin(pmean(d, s))
}
/// How many of the first k points are assigned to one of the first x clusters.
pub open spec fn total(a: Seq<int>, x: int, k: int) -> int
    decreases x
{
    if x <= 0 { 0 } else { total(a, x - 1, k) + mem(a, x - 1, k).len() }
}
pub proof fn lemma_total_step(a: Seq<int>, x: int, k: int)
    requires 0 < k <= a.len(),
    ensures total(a, x, k) == total(a, x, k - 1) + if 0 <= a[k - 1] < x { 1int } else { 0 },
    decreases x,
{
    if x > 0 { lemma_total_step(a, x - 1, k); }
}
pub proof fn lemma_total(a: Seq<int>, x: int, k: int)
    requires 0 <= k <= a.len(), forall|i: int| #![trigger a[i]] 0 <= i < a.len() ==> 0 <= a[i] < x,
    ensures total(a, x, k) == k,
    decreases k,
{
    if k > 0 { lemma_total(a, x, k - 1); lemma_total_step(a, x, k); assert(0 <= a[k - 1] < x); } else { lemma_total_none(a, x); }
}
pub proof fn lemma_total_none(a: Seq<int>, x: int)
    ensures total(a, x, 0) == 0,
    decreases x,
{
    if x > 0 { lemma_total_none(a, x - 1); }
}

//@struct Cluster
impl Cluster {
//@fn Cluster::new
    ensures r.centroid == *initial_centroid, r.children@ == Set::<usize>::empty(),
//@names initial_centroid
//@end
//@fn Cluster::centroid
    ensures *r == self.centroid,
//@end
//@fn Cluster::is_empty
    ensures r == (self.children@.len() == 0),
//@end
//@fn Cluster::size
    ensures r == self.children@.len(),
//@end
//@fn Cluster::update_centroid
    ensures final(self).children == old(self).children,
        old(self).children@.len() == 0 ==> final(self).centroid == pzero(),
        old(self).children@.len() > 0 ==> final(self).centroid == pdivs(old(self).centroid, fof(old(self).children@.len())),
//@names size
//@at start
    proof { axiom_fof(self.children@.len()); }
//@end
//@fn Cluster::insert
    ensures final(self).centroid == padd(old(self).centroid, *data), final(self).children@ == old(self).children@.insert(index),
//@names index data
//@end
//@fn Cluster::clear
    ensures final(self).centroid == pzero(), final(self).children@ == Set::<usize>::empty(),
//@end
}
pub open spec fn cents(c: Seq<Cluster>) -> Seq<P> { Seq::new(c.len(), |i: int| c[i].centroid) }
/// j is one of the centroids nearest to p.
pub open spec fn nearest(m: DistanceMetric, c: Seq<P>, p: P, j: int) -> bool {
    0 <= j < c.len() && forall|i: int| #![trigger c[i]] 0 <= i < c.len() ==> rank(mspec(m, c[j], p)) <= rank(mspec(m, c[i], p))
}
/// Cluster x holds exactly the points assigned to it; the centroid of a non-empty cluster is their mean.
pub open spec fn holds(d: Seq<P>, a: Seq<int>, x: int, c: Cluster) -> bool {
    &&& forall|i: usize| #![trigger c.children@.contains(i)] c.children@.contains(i) <==> i < d.len() && a[i as int] == x
    &&& c.children@.len() == mem(a, x, d.len() as int).len()
    &&& c.children@.len() > 0 ==> c.centroid == pmean(d, mem(a, x, d.len() as int))
    &&& pfin(c.centroid)
}
/// The clusters are what assignment a makes of the data.
pub open spec fn partitions(d: Seq<P>, a: Seq<int>, c: Seq<Cluster>) -> bool {
    &&& a.len() == d.len()
    &&& forall|i: int| #![trigger a[i]] 0 <= i < a.len() ==> 0 <= a[i] < c.len()
    &&& forall|x: int| #![trigger c[x]] 0 <= x < c.len() ==> holds(d, a, x, c[x])
}
/// One iteration: every point goes to a nearest one of the centroids before.
pub open spec fn step(d: Seq<P>, m: DistanceMetric, before: Seq<P>, after: Seq<Cluster>) -> bool {
    &&& after.len() == before.len()
    &&& exists|a: Seq<int>| #![trigger partitions(d, a, after)] partitions(d, a, after) && forall|i: int| #![trigger a[i]] 0 <= i < d.len() ==> nearest(m, before, d[i], a[i])
}
/// Every non-empty cluster's centroid moved by less than the tolerance.
pub open spec fn settled(m: DistanceMetric, tolerance: F, before: Seq<P>, after: Seq<Cluster>) -> bool {
    forall|x: int| #![trigger after[x]] 0 <= x < after.len() ==> calm(m, tolerance, before[x], after[x])
}
pub open spec fn calm(m: DistanceMetric, tolerance: F, old_centroid: P, c: Cluster) -> bool {
    c.children@.len() > 0 ==> flt(mspec(m, old_centroid, c.centroid), tolerance)
}
/// h is the history of the iteration: consecutive steps, ended early only once settled.
pub open spec fn history(d: Seq<P>, m: DistanceMetric, tolerance: F, limit: int, h: Seq<Seq<Cluster>>) -> bool {
    &&& h.len() >= 1
    &&& h.len() <= limit + 1
    &&& forall|t: int| #![trigger h[t]] 1 <= t < h.len() ==> step(d, m, cents(h[t - 1]), h[t])
    &&& h.len() < limit + 1 ==> h.len() > 1 && settled(m, tolerance, cents(h[h.len() - 2]), h.last())
}
/// While the data are being handed out: the first k points are where a puts them.
pub open spec fn partly(d: Seq<P>, a: Seq<int>, k: int, c: Seq<Cluster>) -> bool {
    forall|x: int| #![trigger c[x]] 0 <= x < c.len() ==> c[x].children@ == mem(a, x, k).to_set() && c[x].centroid == psum(d, mem(a, x, k))
}
pub proof fn lemma_prefix(a: Seq<int>, b: Seq<int>, x: int, k: int)
    requires 0 <= k <= a.len(), k <= b.len(), forall|i: int| #![trigger a[i]] 0 <= i < k ==> a[i] == b[i],
    ensures mem(a, x, k) == mem(b, x, k),
    decreases k,
{
    if k > 0 { lemma_prefix(a, b, x, k - 1); assert(a[k - 1] == b[k - 1]); }
}
/// Handing out point a.len().
pub proof fn lemma_hand(d: Seq<P>, a: Seq<int>, j: int, c: Seq<Cluster>, e: Seq<Cluster>)
    requires a.len() < d.len(), d.len() <= usize::MAX, 0 <= j < c.len(), partly(d, a, a.len() as int, c), e.len() == c.len(),
        forall|x: int| #![trigger e[x]] 0 <= x < e.len() && x != j ==> e[x] == c[x],
        e[j].centroid == padd(c[j].centroid, d[a.len() as int]), e[j].children@ == c[j].children@.insert(a.len() as usize),
    ensures partly(d, a.push(j), (a.len() + 1) as int, e),
{
    let (b, k) = (a.push(j), a.len() as int);
    assert forall|x: int| #![trigger e[x]] 0 <= x < e.len() implies e[x].children@ == mem(b, x, k + 1).to_set() && e[x].centroid == psum(d, mem(b, x, k + 1)) by {
        lemma_prefix(a, b, x, k);
        assert(c[x].children@ == mem(a, x, k).to_set());
        if x == j {
            let (s, t) = (mem(a, x, k), mem(b, x, k + 1));
            assert(t == s.push(k as usize));
            assert(t.drop_last() =~= s);
            lemma_mem(b, x, k + 1);
            lemma_mem(a, x, k);
            assert(e[x].children@ =~= t.to_set()) by {
                assert forall|i: usize| #![trigger e[x].children@.contains(i)] e[x].children@.contains(i) <==> t.contains(i) by {
                    assert(s.to_set().contains(i) == s.contains(i));
                }
            }
        }
    }
}
/// What the partial sums are once everything is handed out.
pub proof fn lemma_handed(d: Seq<P>, a: Seq<int>, x: int, c: Cluster)
    requires a.len() == d.len(), d.len() <= usize::MAX, c.children@ == mem(a, x, d.len() as int).to_set(),
    ensures c.children@.len() == mem(a, x, d.len() as int).len(),
        forall|i: usize| #![trigger c.children@.contains(i)] c.children@.contains(i) <==> i < d.len() && a[i as int] == x,
        ascending(mem(a, x, d.len() as int), d.len() as int),
{
    lemma_mem(a, x, d.len() as int);
    mem(a, x, d.len() as int).unique_seq_to_set();
}

//@struct KmeansParams
impl KmeansParams {
//@fn KmeansParams::k
    ensures r == self.k,
//@end
//@fn KmeansParams::max_iterations
    ensures r == self.max_iterations,
//@end
//@fn KmeansParams::tolerance
    ensures r == self.tolerance,
//@end
//@fn KmeansParams::metric
    ensures *r == self.metric,
//@end
//@fn KmeansParams::initializer
    ensures *r == self.initializer,
//@end
}
//@struct Kmeans
impl Kmeans {
//@fn Kmeans::centroids
    ensures r@ == cents(self.clusters@),
//@names cluster
//@nloops 1
//@loop 0
    invariant it0_n <= it0_end, it0_end == self.clusters@.len(), acc0@ =~= cents(self.clusters@).take(it0_n as int),
    decreases it0_end - it0_n,
//@at before loop 0
    let ghost typed: Seq<P> = acc0@;
//@at after loop 0
    proof { assert(acc0@ =~= cents(self.clusters@)); }
//@end
//@fn Kmeans::count_at
    ensures r == if index < self.clusters@.len() { self.clusters@[index as int].children@.len() } else { 0 },
//@names index cluster c
//@end
//@fn Kmeans::reassign
    requires allfin(dataset@), summable(dataset@), !nan(tolerance), old(clusters)@.len() > 0, allfin(cents(old(clusters)@)),
    ensures step(dataset@, *metric, cents(old(clusters)@), final(clusters)@), allfin(cents(final(clusters)@)),
        r == settled(*metric, tolerance, cents(old(clusters)@), final(clusters)@),
//@names dataset clusters metric tolerance centroids cluster nns index data result nearest converged old_centroid difference
//@nloops 3
//@loop 0
    invariant it0_n <= it0_end, it0_end == clusters@.len(), clusters@.len() == before.len(), centroids@ =~= before.take(it0_n as int),
        forall|x: int| #![trigger clusters@[x]] 0 <= x < it0_n ==> clusters@[x].children@ == Set::<usize>::empty() && clusters@[x].centroid == pzero(),
        forall|x: int| #![trigger clusters@[x]] it0_n <= x < before.len() ==> clusters@[x].centroid == before[x],
    decreases it0_end - it0_n,
//@loop 1
    invariant it1_n <= it1_end, it1_end == dataset@.len(), nns.wf(), nns.dataset@ == before, *nns.metric == *metric, allfin(dataset@), allfin(before),
        before.len() > 0, clusters@.len() == before.len(), a.len() == it1_n, partly(dataset@, a, it1_n as int, clusters@),
        forall|i: int| #![trigger a[i]] 0 <= i < it1_n ==> nearest(*metric, before, dataset@[i], a[i]),
    decreases it1_end - it1_n,
//@loop 2
    invariant it2_n <= it2_end, it2_end == before.len(), clusters@.len() == before.len(), allfin(dataset@), summable(dataset@), allfin(before), !nan(tolerance),
        a.len() == dataset@.len(), dataset@.len() <= usize::MAX, itz_src@ == before,
        forall|x: int| #![trigger clusters@[x]] 0 <= x < it2_n ==> holds(dataset@, a, x, clusters@[x]),
        forall|x: int| #![trigger clusters@[x]] it2_n <= x < before.len() ==> clusters@[x].children@ == mem(a, x, a.len() as int).to_set() && clusters@[x].centroid == psum(dataset@, mem(a, x, a.len() as int)),
        converged ==> forall|x: int| #![trigger clusters@[x]] 0 <= x < it2_n ==> calm(*metric, tolerance, before[x], clusters@[x]),
        !converged ==> 0 <= far < it2_n && !calm(*metric, tolerance, before[far], clusters@[far]),
    decreases it2_end - it2_n,
//@at start
    let ghost before = cents(clusters@);
    let ghost mut a: Seq<int> = Seq::empty();
    let ghost mut far: int = 0;
//@at before loop 0
    let ghost typed: Seq<P> = centroids@;
//@at loop 0 start
    proof { assert(before.take(it0_n as int).push(before[it0_n as int]) =~= before.take(it0_n + 1)); }
//@at after loop 0
    proof { assert(centroids@ =~= before); }
//@at after let nns
    proof {
        assert forall|x: int| #![trigger clusters@[x]] 0 <= x < clusters@.len() implies clusters@[x].children@ == mem(a, x, 0).to_set() && clusters@[x].centroid == psum(dataset@, mem(a, x, 0)) by {
            assert(mem(a, x, 0).to_set() =~= Set::<usize>::empty());
        }
    }
//@at loop 1 start
    proof { assert(pfin(dataset@[it1_n as int])); }
    let ghost was = clusters@;
    let ghost (k, mut j) = (it1_n as int, 0int);
//@at after let result
    proof {
        j = result->0.index as int;
        assert forall|i: int| #![trigger before[i]] 0 <= i < before.len() implies rank(mspec(*metric, before[j], dataset@[k])) <= rank(mspec(*metric, before[i], dataset@[k])) by {
            assert(rank(result->0.distance) <= rank(nns.dist(dataset@[k], i)));
        }
        assert(nearest(*metric, before, dataset@[k], j));
    }
//@at loop 1 end
    proof {
        lemma_hand(dataset@, a, j, was, clusters@);
        a = a.push(j);
    }
//@at loop 2 start
    let ghost (x, was2, s) = (it2_n as int, clusters@, mem(a, it2_n as int, a.len() as int));
    proof {
        lemma_handed(dataset@, a, x, was2[x]);
        assert(pfin(before[x]));
        axiom_pzero();
        lemma_zero_finite();
        if s.len() > 0 { assert(pfin(pmean(dataset@, s))); lemma_distance(*metric, before[x], pmean(dataset@, s)); }
        if s.len() > 0 && !flt(mspec(*metric, before[x], pmean(dataset@, s)), tolerance) { far = x; }
    }
//@at after loop 2
    proof {
        assert(partitions(dataset@, a, clusters@));
        assert(cents(clusters@).len() == clusters@.len());
        assert forall|x: int| #![trigger cents(clusters@)[x]] 0 <= x < clusters@.len() implies pfin(cents(clusters@)[x]) by { assert(holds(dataset@, a, x, clusters@[x])); }
    }
//@end
//@fn Kmeans::fit
    requires allfin(dataset@), summable(dataset@), !nan(params.tolerance),
    ensures params.k == 0 ==> r.clusters@.len() == 0,
        params.k > 0 && params.k >= dataset@.len() ==> alone(dataset@, r.clusters@),
        0 < params.k < dataset@.len() ==> exists|h: Seq<Seq<Cluster>>| #![trigger history(dataset@, params.metric, params.tolerance, params.max_iterations as int, h)]
            history(dataset@, params.metric, params.tolerance, params.max_iterations as int, h) && h[0].len() == params.k && r.clusters@ == h.last(),
//@names dataset params clusters index data cluster centroid converged
//@nloops 3
//@loop 0
    invariant it0_n <= it0_end, it0_end == dataset@.len(), clusters@.len() == it0_n,
        forall|x: int| #![trigger clusters@[x]] 0 <= x < it0_n ==> clusters@[x].children@ == Set::<usize>::empty().insert(x as usize) && clusters@[x].centroid == padd(pzero(), dataset@[x]),
    decreases it0_end - it0_n,
//@loop 1
    invariant it1_n <= it1_end, it1_end == it1_src@.len(), it1_src@.len() == params.k, allfin(it1_src@), clusters@.len() == it1_n,
        forall|x: int| #![trigger clusters@[x]] 0 <= x < it1_n ==> clusters@[x].centroid == it1_src@[x],
    decreases it1_end - it1_n,
//@loop 2
    invariant_except_break h.len() == it2_n + 1,
    invariant it2_n <= it2_end, it2_end == params.max_iterations, allfin(dataset@), summable(dataset@), !nan(params.tolerance), params.k > 0, clusters@.len() == params.k,
        allfin(cents(clusters@)), h.len() >= 1, h.last() == clusters@, h[0].len() == params.k,
        forall|t: int| #![trigger h[t]] 1 <= t < h.len() ==> step(dataset@, params.metric, cents(h[t - 1]), h[t]),
    ensures history(dataset@, params.metric, params.tolerance, params.max_iterations as int, h),
    decreases it2_end - it2_n,
//@at start
    let ghost mut h: Seq<Seq<Cluster>> = Seq::empty();
//@at before loop 0
    let ghost typed: Seq<Cluster> = clusters@;
//@at before loop 1
    let ghost typed: Seq<Cluster> = clusters@;
    proof {
        let x = choose|x: Seq<int>| #![trigger picks(dataset@, x)] entries(dataset@, x) && it1_src@ == picks(dataset@, x);
        assert forall|i: int| #![trigger it1_src@[i]] 0 <= i < it1_src@.len() implies pfin(it1_src@[i]) by { assert(picks(dataset@, x)[i] == dataset@[x[i]]); }
    }
//@at after loop 1
    proof {
        h = Seq::empty().push(clusters@);
        assert(allfin(cents(clusters@)));
    }
//@at after let converged
    proof {
        let g = h.push(clusters@);
        assert forall|t: int| #![trigger g[t]] 1 <= t < g.len() implies step(dataset@, params.metric, cents(g[t - 1]), g[t]) by { if t < h.len() { assert(h[t] == g[t]); } assert(g[t - 1] == h[t - 1]); }
        h = g;
    }
//@at after loop 2
    proof { assert(history(dataset@, params.metric, params.tolerance, params.max_iterations as int, h)); }
//@end
}
/// Every point is its own cluster, at its own position.
pub open spec fn alone(d: Seq<P>, c: Seq<Cluster>) -> bool {
    &&& c.len() == d.len()
    &&& forall|x: int| #![trigger c[x]] 0 <= x < c.len() ==> c[x].children@ == Set::<usize>::empty().insert(x as usize) && c[x].centroid == padd(pzero(), d[x])
}

// ---- the properties, from the contract of fit
/// C14: what a history means for its last entry.
pub proof fn theorem_partition(d: Seq<P>, m: DistanceMetric, tolerance: F, limit: int, h: Seq<Seq<Cluster>>, k: int)
    requires history(d, m, tolerance, limit, h), h[0].len() == k, limit >= 1, d.len() <= usize::MAX,
    ensures h.last().len() == k,
        exists|a: Seq<int>| #![trigger partitions(d, a, h.last())] partitions(d, a, h.last()) && total(a, k, d.len() as int) == d.len(),
{
    lemma_same_number(d, m, h, h.len() - 1);
    let t = h.len() - 1;
    assert(step(d, m, cents(h[t - 1]), h[t]));
    let a = choose|a: Seq<int>| #![trigger partitions(d, a, h.last())] partitions(d, a, h.last());
    lemma_total(a, k, d.len() as int);
}
pub proof fn lemma_same_number(d: Seq<P>, m: DistanceMetric, h: Seq<Seq<Cluster>>, t: int)
    requires 0 <= t < h.len(), forall|t: int| #![trigger h[t]] 1 <= t < h.len() ==> step(d, m, cents(h[t - 1]), h[t]),
    ensures h[t].len() == h[0].len(),
    decreases t,
{
    if t > 0 { lemma_same_number(d, m, h, t - 1); assert(step(d, m, cents(h[t - 1]), h[t])); }
}
/// C14: with as many clusters as points, each point is its own centroid.
pub proof fn theorem_alone(d: Seq<P>, c: Seq<Cluster>, x: int, i: int)
    requires alone(d, c), allfin(d), 0 <= x < d.len(), 0 <= i < pdim(),
    ensures rank(pc(c[x].centroid, i)) == rank(pc(d[x], i)), finite(pc(c[x].centroid, i)), c[x].children@.len() == 1,
{
    assert(c[x].centroid == padd(pzero(), d[x]));
    assert(pfin(d[x]));
    axiom_pzero();
    axiom_padd(pzero(), d[x]);
    axiom_zero_plus(pc(d[x], i));
    assert(pc(pzero(), i) == fzero());
}
} // verus!
