verus! {
//@struct Node
impl Node {
//@fn Node::new
    ensures r.index == index, r.axis == axis,
        (left is None ==> r.left is None) && (left is Some ==> r.left is Some && *r.left->0 == left->0),
        (right is None ==> r.right is None) && (right is Some ==> r.right is Some && *r.right->0 == right->0),
//@end
//@fn Node::index
    ensures r == self.index,
//@end
//@fn Node::axis
    ensures r == self.axis,
//@end
//@fn Node::left
    ensures own(r) == self.left,
//@end
//@fn Node::right
    ensures own(r) == self.right,
//@end
//@fn Node::is_leaf
    ensures r == (self.left is None && self.right is None),
//@end
}
pub open spec fn own(n: Option<&Box<Node>>) -> Option<Box<Node>> { match n { None => None, Some(b) => Some(*b) } }
pub open spec fn boxed(n: Option<Node>) -> Option<Box<Node>> { match n { None => None, Some(b) => Some(Box::new(b)) } }

// ---- the tree: its indices, and the order it keeps
pub open spec fn ids(n: Option<Box<Node>>) -> Multiset<usize>
    decreases n
{
    match n { None => Multiset::empty(), Some(b) => ids(b.left).add(ids(b.right)).insert(b.index) }
}
pub open spec fn tree_ok(n: Option<Box<Node>>, d: Seq<P>) -> bool
    decreases n
{
    match n {
        None => true,
        Some(b) => {
            &&& b.index < d.len()
            &&& b.axis < pdim()
            &&& tree_ok(b.left, d)
            &&& tree_ok(b.right, d)
            &&& forall|i: usize| #![trigger ids(b.left).count(i)] ids(b.left).count(i) > 0 ==> i < d.len() && rank(pc(d[i as int], b.axis as int)) <= rank(pc(d[b.index as int], b.axis as int))
            &&& forall|i: usize| #![trigger ids(b.right).count(i)] ids(b.right).count(i) > 0 ==> i < d.len() && rank(pc(d[i as int], b.axis as int)) >= rank(pc(d[b.index as int], b.axis as int))
        }
    }
}
/// Every index of the data set is in the tree exactly once.
pub open spec fn holds_all(n: Option<Box<Node>>, d: Seq<P>) -> bool {
    forall|i: usize| #![trigger ids(n).count(i)] ids(n).count(i) == if i < d.len() { 1nat } else { 0nat }
}
//@struct KDTree
impl<'a> KDTree<'a> {
    pub open spec fn wf(&self) -> bool {
        &&& allfin(self.dataset@)
        &&& tree_ok(self.root, self.dataset@)
        &&& holds_all(self.root, self.dataset@)
    }
    pub open spec fn dist(&self, q: P, i: int) -> F { mspec(*self.metric, self.dataset@[i], q) }

//@fn KDTree::build_node
    requires allfin(dataset@), forall|i: int| #![trigger old(indices)@[i]] 0 <= i < old(indices)@.len() ==> old(indices)@[i] < dataset@.len(),
        depth + old(indices)@.len() <= usize::MAX,
    ensures final(indices)@.to_multiset() == old(indices)@.to_multiset(),
        ids(boxed(r)) == old(indices)@.to_multiset(), tree_ok(boxed(r), dataset@),
    decreases old(indices)@.len(),
//@hoist
//@names dataset indices depth axis index1 index2 lhs rhs node median
//@nloops 0
//@closure 0
    -> (o: Ordering)
    requires *index1 < dataset@.len(), *index2 < dataset@.len(), axis < pdim(), allfin(dataset@),
    ensures o == iord(rank(pc(dataset@[*index1 as int], axis as int)), rank(pc(dataset@[*index2 as int], axis as int)))
//@at start
    proof {
        axiom_dim();
        old(indices)@.to_multiset_ensures();
        if old(indices)@.len() == 0 { assert(old(indices)@.to_multiset() =~= Multiset::empty()); }
    }
    let ghost before = indices@;
//@at before call sort_unstable_by
    proof {
        assert forall|i: int| 0 <= i < indices@.len() implies pfin(#[trigger] dataset@[indices@[i] as int]) by {}
        assert forall|i: int| 0 <= i < dataset@.len() implies finite(#[trigger] pc(dataset@[i], axis as int)) && !nan(pc(dataset@[i], axis as int)) by { axiom_finite(pc(dataset@[i], axis as int)); }
    }
//@at after call sort_unstable_by
    let ghost s = indices@;
    let ghost mut s1 = s;
    proof {
        lemma_same_elements(before, s);
        assert forall|i: int| #![trigger s[i]] 0 <= i < s.len() implies s[i] < dataset@.len() by { assert(before.contains(s[i])); }
        assert(along(s, dataset@, axis as int)) by { reveal(along); }
    }
//@at after let arg2
    proof { s1 = indices@; assert(s1.subrange((s.len() / 2 + 1) as int, s.len() as int) =~= s.subrange((s.len() / 2 + 1) as int, s.len() as int)); }
//@at after let node
    proof {
        let m = (s.len() / 2) as int;
        assert(s1.subrange(0, m) =~= indices@.subrange(0, m));
        lemma_built(node, dataset@, before, s, s1, indices@, m);
    }
//@end
//@fn KDTree::new
    requires allfin(dataset@),
    ensures r.wf(), r.dataset@ == dataset@, *r.metric == *metric,
//@names dataset metric indices root
//@nloops 1
//@loop 0
    invariant it0_n <= it0_end, it0_end == dataset@.len(), indices@.len() == it0_n,
        forall|i: int| #![trigger indices@[i]] 0 <= i < it0_n ==> indices@[i] == i,
    decreases it0_end - it0_n,
//@at after loop 0
    proof {
        assert(indices@.no_duplicates());
        indices@.lemma_multiset_has_no_duplicates();
        indices@.to_multiset_ensures();
        assert forall|i: usize| #![trigger indices@.to_multiset().count(i)] indices@.to_multiset().count(i) == if i < dataset@.len() { 1nat } else { 0nat } by {
            if i < dataset@.len() { assert(indices@[i as int] == i); assert(indices@.contains(i)); }
            else { assert(!indices@.contains(i)); }
        }
    }
//@end
//@fn KDTree::search_recursively
//@for C07 C09 C14
    requires tree_ok(own(root), self.dataset@), allfin(self.dataset@), pfin(*query), k >= 1,
        tracks(old(heap).ms(), old(nearest).ms(), k as int), old(heap).ms().len() + ids(own(root)).len() <= usize::MAX,
    ensures tracks(final(heap).ms(), final(nearest).ms(), k as int),
        visited(old(heap).ms(), old(nearest).ms(), final(heap).ms(), final(nearest).ms(), k as int, pick(own(root), self.dataset@, *self.metric, *query, None)),
    decreases own(root),
//@names root query k heap nearest node index point distance delta axis furthest e
//@nloops 0
//@at start
    let ghost (h0, n0) = (heap.ms(), nearest.ms());
    proof { axiom_dim(); if own(root) is None { lemma_skip(h0, n0, k as int, Multiset::empty()); } }
//@at before call is_leaf
    let ghost (h1, n1) = (heap.ms(), nearest.ms());
    let ghost n = *own(root)->0;
    let ghost (d, m, q) = (self.dataset@, *self.metric, *query);
    let ghost (one, left, right) = (pick_one(n, d, m, q, None), pick(n.left, d, m, q, None), pick(n.right, d, m, q, None));
    let ghost mut h2 = h1;
    let ghost mut n2 = n1;
    proof {
        let e = elem(d, m, q, index);
        lemma_distance(m, d[index as int], q);
        lemma_keep(h0, n0, h1, n1, k as int, e);
        assert(one =~= Multiset::empty().insert(e));
        if n.left is None { assert(one.add(left) =~= one); }
        if n.right is None { assert(one.add(left).add(right) =~= one.add(left)); }
        lemma_pick_len(n.left, d, m, q);
        lemma_pick_len(n.right, d, m, q);
    }
//@at after let furthest
    proof {
        lemma_sides(n, d, m, q);
        axiom_finite(pc(q, n.axis as int)); axiom_finite(pc(d[n.index as int], n.axis as int));
        axiom_sub(pc(q, n.axis as int), pc(d[n.index as int], n.axis as int));
        axiom_zero();
        if nearest.ms().len() >= k && !fle(aspec(m, delta), furthest) {
            lemma_cut(h1, n1, k as int, aspec(m, delta), furthest);
            if rank(delta) < 0 {
                assert forall|e: Element| #![trigger right.count(e)] right.count(e) > 0 implies full(n1, k as int, rank(e.distance)) by { lemma_pick(n.right, d, m, q, None, e); }
            } else {
                assert forall|e: Element| #![trigger left.count(e)] left.count(e) > 0 implies full(n1, k as int, rank(e.distance)) by { lemma_pick(n.left, d, m, q, None, e); }
                lemma_skip(h1, n1, k as int, left);
            }
        }
    }
//@at after call search_recursively #1
    proof { h2 = heap.ms(); n2 = nearest.ms(); lemma_room(h1, n1, h2, n2, k as int, left); }
//@at after call search_recursively #3
    proof {
        h2 = heap.ms(); n2 = nearest.ms();
        assert forall|e: Element| #![trigger right.count(e)] right.count(e) > 0 implies full(n2, k as int, rank(e.distance)) by { assert(full(n1, k as int, rank(e.distance))); }
        lemma_skip(h2, n2, k as int, right);
    }
//@at end
    proof {
        lemma_visited(h0, n0, h1, n1, h2, n2, k as int, one, left);
        lemma_visited(h0, n0, h2, n2, heap.ms(), nearest.ms(), k as int, one.add(left), right);
    }
//@end
//@fn KDTree::search
//@for C07 C09 C14
    requires self.wf(), pfin(*query),
    ensures r@.len() == if k < self.dataset@.len() { k as nat } else { self.dataset@.len() },
        forall|j: int| #![trigger r@[j]] 0 <= j < r@.len() ==> r@[j].index < self.dataset@.len() && r@[j].distance == self.dist(*query, r@[j].index as int),
        forall|a: int, b: int| #![trigger r@[a], r@[b]] 0 <= a < b < r@.len() ==> r@[a].index != r@[b].index && rank(r@[a].distance) <= rank(r@[b].distance),
        nothing_nearer(self, *query, r@),
//@names query k heap nearest neighbors element
//@nloops 1
//@loop 0
    invariant_except_break neighbors@.len() < k, k >= 1,
        total == heap.ms().add(elements(neighbors@).to_multiset()),
        forall|e: Element| #![trigger e.ok()] total.count(e) > 0 ==> e.ok(),
        popped_order(neighbors@, heap.ms()),
    ensures total == heap.ms().add(elements(neighbors@).to_multiset()), popped_order(neighbors@, heap.ms()),
        neighbors@.len() == k || (neighbors@.len() < k && heap.ms().len() == 0),
    decreases heap.ms().len(),
//@at before call search_recursively
    proof {
        assert(self.dataset.len() <= usize::MAX);
        lemma_whole_len(self.root, self.dataset@, *self.metric, *query);
    }
//@at before let neighbors
    let ghost total = heap.ms();
    let ghost near = nearest.ms();
    let ghost all = pick(self.root, self.dataset@, *self.metric, *query, None);
    proof { lemma_whole(self.root, self.dataset@, *self.metric, *query, None); }
//@at after let neighbors
    proof {
        elements(neighbors@).to_multiset_ensures();
        assert(elements(neighbors@).to_multiset() =~= Multiset::empty());
        assert(total =~= heap.ms().add(elements(neighbors@).to_multiset()));
    }
//@at loop 0 start
    let ghost before = heap.ms();
    let ghost done = neighbors@;
//@at after call push
    proof { lemma_popped(total, before, heap.ms(), done, neighbors@, element); }
//@at end
    proof {
        let es = elements(neighbors@).to_multiset();
        elements(neighbors@).to_multiset_ensures();
        assert forall|e: Element| #![trigger es.count(e)] es.count(e) <= all.count(e) by { assert(total.count(e) >= es.count(e)); assert(total.count(e) <= all.count(e)); }
        lemma_listed(self.root, self.dataset@, *self.metric, *query, None, neighbors@);
        assert(total.len() == heap.ms().len() + neighbors@.len());
        assert(total.subset_of(all));
        lemma_sub_len(total, all);
        if neighbors@.len() < k {
            assert forall|e: Element| all.count(e) <= #[trigger] total.count(e) by { assert(all.count(e) > 0 ==> total.count(e) > 0); }
            assert(total =~= all);
        }
        assert forall|i: int| 0 <= i < self.dataset@.len() && neighbors@.len() > 0 && (forall|j: int| 0 <= j < neighbors@.len() ==> neighbors@[j].index != i)
            implies rank(neighbors@.last().distance) <= rank(#[trigger] self.dist(*query, i)) by {
            assert(self.dataset.len() <= usize::MAX);
            let e = elem(self.dataset@, *self.metric, *query, i as usize);
            assert(all.count(e) > 0);
            if total.count(e) > 0 {
                assert(es.count(e) == 0) by { if es.count(e) > 0 {
                    let j = choose|j: int| #![trigger neighbors@[j]] 0 <= j < neighbors@.len() && neighbors@[j].index == e.index;
                    assert(neighbors@[j].index == i);
                } }
                assert(heap.ms().count(e) > 0);
            } else {
                lemma_knn(total, near, neighbors@, heap.ms(), k as int, rank(e.distance));
            }
        }
    }
//@end
//@fn KDTree::search_nearest
//@for C07 C14
    requires self.wf(), pfin(*query),
    ensures self.dataset@.len() == 0 ==> r is None,
        self.dataset@.len() > 0 ==> r is Some && r->0.index < self.dataset@.len() && r->0.distance == self.dist(*query, r->0.index as int)
            && forall|i: int| 0 <= i < self.dataset@.len() ==> rank(r->0.distance) <= rank(#[trigger] self.dist(*query, i)),
//@names query
//@hoist
//@end
//@fn KDTree::search_radius_recursively
//@for C03 C04 C05 C06
    requires tree_ok(own(root), self.dataset@), allfin(self.dataset@), pfin(*query), !nan(radius),
    ensures final(results).ms() == old(results).ms().add(pick(own(root), self.dataset@, *self.metric, *query, Some(radius))),
    decreases own(root),
//@names root query radius results node index point distance delta axis
//@nloops 0
//@at start
    proof {
        axiom_dim();
        if own(root) is None { assert(old(results).ms().add(Multiset::empty()) =~= old(results).ms()); }
    }
//@at after let delta
    proof {
        let n = *own(root)->0;
        let (d, m, q) = (self.dataset@, *self.metric, *query);
        let lim = Some(radius);
        let one = pick_one(n, d, m, q, lim);
        let (l, r) = (pick(n.left, d, m, q, lim), pick(n.right, d, m, q, lim));
        assert(results.ms() =~= old(results).ms().add(one));
        assert(results.ms().add(l).add(r) =~= old(results).ms().add(one.add(l).add(r)));
        lemma_distance(m, d[n.index as int], q);
        lemma_sides(n, d, m, q);
        axiom_finite(pc(q, n.axis as int)); axiom_finite(pc(d[n.index as int], n.axis as int));
        axiom_sub(pc(q, n.axis as int), pc(d[n.index as int], n.axis as int));
        axiom_zero();
        if !fle(aspec(m, delta), radius) {
            if rank(delta) < 0 {
                lemma_pruned(n.right, d, m, q, radius);
                assert(results.ms().add(l) =~= results.ms().add(l).add(r));
            } else {
                lemma_pruned(n.left, d, m, q, radius);
                assert(results.ms().add(r) =~= results.ms().add(l).add(r));
            }
        }
    }
//@end
//@fn KDTree::search_radius
//@for C03 C04 C05 C06
    requires self.wf(), pfin(*query), !nan(radius),
    ensures flt(radius, fzero()) ==> r@.len() == 0,
        forall|j: int| #![trigger r@[j]] 0 <= j < r@.len() ==> r@[j].index < self.dataset@.len() && r@[j].distance == self.dist(*query, r@[j].index as int) && fle(r@[j].distance, radius),
        forall|a: int, b: int| #![trigger r@[a], r@[b]] 0 <= a < b < r@.len() ==> r@[a].index != r@[b].index && rank(r@[a].distance) <= rank(r@[b].distance),
        !flt(radius, fzero()) ==> forall|i: int| #![trigger self.dist(*query, i)] 0 <= i < self.dataset@.len() && fle(self.dist(*query, i), radius) ==> exists|j: int| #![trigger r@[j]] 0 <= j < r@.len() && r@[j].index == i,
//@names query radius results neighbors element
//@nloops 1
//@loop 0
    invariant_except_break
        total == results.ms().add(elements(neighbors@).to_multiset()),
        heap_ok(total), forall|e: Element| #![trigger e.ok()] total.count(e) > 0 ==> e.ok(),
        popped_order(neighbors@, results.ms()),
    ensures total == elements(neighbors@).to_multiset(), popped_order(neighbors@, results.ms()),
    decreases results.ms().len(),
//@at before let neighbors
    let ghost total = results.ms();
    proof {
        lemma_whole(self.root, self.dataset@, *self.metric, *query, Some(radius));
        assert(results.ms() =~= pick(self.root, self.dataset@, *self.metric, *query, Some(radius)));
    }
//@at after let neighbors
    proof {
        elements(neighbors@).to_multiset_ensures();
        assert(elements(neighbors@).to_multiset() =~= Multiset::empty());
        assert(total =~= results.ms().add(elements(neighbors@).to_multiset()));
    }
//@at loop 0 start
    let ghost before = results.ms();
    let ghost done = neighbors@;
//@at after call push
    proof { lemma_popped(total, before, results.ms(), done, neighbors@, element); }
//@at end
    proof {
        lemma_listed(self.root, self.dataset@, *self.metric, *query, Some(radius), neighbors@);
        assert forall|i: int| #![trigger self.dist(*query, i)] 0 <= i < self.dataset@.len() && fle(self.dist(*query, i), radius) implies exists|j: int| #![trigger neighbors@[j]] 0 <= j < neighbors@.len() && neighbors@[j].index == i by {
            assert(self.dataset.len() <= usize::MAX);
            let e = Element { index: i as usize, distance: self.dist(*query, i) };
            assert(e == elem(self.dataset@, *self.metric, *query, e.index));
            assert(total.count(e) > 0);
        }
    }
//@end
}
// ---- the elements a traversal selects
pub open spec fn elem(d: Seq<P>, m: DistanceMetric, q: P, i: usize) -> Element { Element { index: i, distance: mspec(m, d[i as int], q) } }
pub open spec fn within(x: F, lim: Option<F>) -> bool { match lim { None => true, Some(r) => fle(x, r) } }
pub open spec fn pick_one(n: Node, d: Seq<P>, m: DistanceMetric, q: P, lim: Option<F>) -> Multiset<Element> {
    if within(mspec(m, d[n.index as int], q), lim) { Multiset::empty().insert(elem(d, m, q, n.index)) } else { Multiset::empty() }
}
pub open spec fn pick(n: Option<Box<Node>>, d: Seq<P>, m: DistanceMetric, q: P, lim: Option<F>) -> Multiset<Element>
    decreases n
{
    match n {
        None => Multiset::empty(),
        Some(b) => pick_one(*b, d, m, q, lim).add(pick(b.left, d, m, q, lim)).add(pick(b.right, d, m, q, lim)),
    }
}
pub proof fn lemma_pick(n: Option<Box<Node>>, d: Seq<P>, m: DistanceMetric, q: P, lim: Option<F>, e: Element)
    ensures pick(n, d, m, q, lim).count(e) == if e == elem(d, m, q, e.index) && within(e.distance, lim) { ids(n).count(e.index) } else { 0 },
    decreases n
{
    if let Some(b) = n {
        lemma_pick(b.left, d, m, q, lim, e);
        lemma_pick(b.right, d, m, q, lim, e);
    }
}
/// Which side of the plane the points of each subtree lie on.
pub proof fn lemma_sides(n: Node, d: Seq<P>, m: DistanceMetric, q: P)
    requires tree_ok(Some(Box::new(n)), d), allfin(d), pfin(q),
    ensures ({
        let (p, c) = (d[n.index as int], n.axis as int);
        let a = aspec(m, fsub(pc(q, c), pc(p, c)));
        &&& !nan(a)
        &&& rank(pc(q, c)) >= rank(pc(p, c)) ==> forall|i: usize| #![trigger ids(n.left).count(i)] ids(n.left).count(i) > 0 ==> !nan(mspec(m, d[i as int], q)) && rank(a) <= rank(mspec(m, d[i as int], q))
        &&& rank(pc(q, c)) <= rank(pc(p, c)) ==> forall|i: usize| #![trigger ids(n.right).count(i)] ids(n.right).count(i) > 0 ==> !nan(mspec(m, d[i as int], q)) && rank(a) <= rank(mspec(m, d[i as int], q))
    }),
{
    axiom_dim();
    let (p, c) = (d[n.index as int], n.axis as int);
    lemma_plane(m, p, p, q, c);
    if rank(pc(q, c)) >= rank(pc(p, c)) {
        assert forall|i: usize| #![trigger ids(n.left).count(i)] ids(n.left).count(i) > 0 implies !nan(mspec(m, d[i as int], q)) && rank(aspec(m, fsub(pc(q, c), pc(p, c)))) <= rank(mspec(m, d[i as int], q)) by {
            lemma_distance(m, d[i as int], q);
            lemma_plane(m, d[i as int], p, q, c);
        }
    }
    if rank(pc(q, c)) <= rank(pc(p, c)) {
        assert forall|i: usize| #![trigger ids(n.right).count(i)] ids(n.right).count(i) > 0 implies !nan(mspec(m, d[i as int], q)) && rank(aspec(m, fsub(pc(q, c), pc(p, c)))) <= rank(mspec(m, d[i as int], q)) by {
            lemma_distance(m, d[i as int], q);
            lemma_plane(m, d[i as int], p, q, c);
        }
    }
}
pub proof fn lemma_pruned(n: Option<Box<Node>>, d: Seq<P>, m: DistanceMetric, q: P, r: F)
    requires forall|i: usize| #![trigger ids(n).count(i)] ids(n).count(i) > 0 ==> !fle(mspec(m, d[i as int], q), r),
    ensures pick(n, d, m, q, Some(r)) == Multiset::<Element>::empty(),
{
    assert forall|e: Element| pick(n, d, m, q, Some(r)).count(e) == 0 by { lemma_pick(n, d, m, q, Some(r), e); }
    assert(pick(n, d, m, q, Some(r)) =~= Multiset::empty());
}
/// Over the whole tree: every point that is selected is there once.
pub proof fn lemma_whole(n: Option<Box<Node>>, d: Seq<P>, m: DistanceMetric, q: P, lim: Option<F>)
    requires holds_all(n, d), allfin(d), pfin(q),
    ensures heap_ok(pick(n, d, m, q, lim)),
        forall|e: Element| #![trigger pick(n, d, m, q, lim).count(e)] pick(n, d, m, q, lim).count(e) ==
            if e.index < d.len() && e == elem(d, m, q, e.index) && within(e.distance, lim) { 1nat } else { 0nat },
        forall|e: Element| #![trigger e.ok()] pick(n, d, m, q, lim).count(e) > 0 ==> e.ok(),
{
    assert forall|e: Element| #![trigger pick(n, d, m, q, lim).count(e)] pick(n, d, m, q, lim).count(e) ==
            if e.index < d.len() && e == elem(d, m, q, e.index) && within(e.distance, lim) { 1nat } else { 0nat } by { lemma_pick(n, d, m, q, lim, e); }
    assert forall|e: Element| #![trigger e.ok()] pick(n, d, m, q, lim).count(e) > 0 implies e.ok() by { lemma_distance(m, d[e.index as int], q); }
}
// ---- the k nearest found so far
/// The points in `near` are among those in `heap`, and there are as many as possible up to k.
pub open spec fn tracks(heap: Multiset<Element>, near: Multiset<Reverse<Element>>, k: int) -> bool {
    &&& forall|e: Element| #![trigger near.count(Reverse(e))] near.count(Reverse(e)) <= heap.count(e)
    &&& near.len() == if heap.len() < k { heap.len() as int } else { k }
    &&& forall|e: Element| #![trigger e.ok()] heap.count(e) > 0 ==> e.ok()
}
/// k points at distance at most x have been found.
pub open spec fn full(near: Multiset<Reverse<Element>>, k: int, x: int) -> bool {
    near.len() == k && forall|e: Reverse<Element>| #![trigger near.count(e)] near.count(e) > 0 ==> rank(e.0.distance) <= x
}
/// From (h0, n0) to (h1, n1): only points of `sel` were added, and those not added are no nearer than k found ones.
pub open spec fn visited(h0: Multiset<Element>, n0: Multiset<Reverse<Element>>, h1: Multiset<Element>, n1: Multiset<Reverse<Element>>, k: int, sel: Multiset<Element>) -> bool {
    &&& forall|e: Element| #![trigger h1.count(e)] h0.count(e) <= h1.count(e) <= h0.count(e) + sel.count(e)
    &&& forall|e: Element| #![trigger sel.count(e)] sel.count(e) > 0 ==> h1.count(e) > 0 || full(n1, k, rank(e.distance))
    &&& forall|x: int| #![trigger full(n1, k, x)] #![trigger full(n0, k, x)] full(n0, k, x) ==> full(n1, k, x)
}
pub proof fn lemma_skip(h: Multiset<Element>, n: Multiset<Reverse<Element>>, k: int, sel: Multiset<Element>)
    requires forall|e: Element| #![trigger sel.count(e)] sel.count(e) > 0 ==> full(n, k, rank(e.distance)),
    ensures visited(h, n, h, n, k, sel),
{}
pub proof fn lemma_visited(h0: Multiset<Element>, n0: Multiset<Reverse<Element>>, h1: Multiset<Element>, n1: Multiset<Reverse<Element>>, h2: Multiset<Element>, n2: Multiset<Reverse<Element>>, k: int, s1: Multiset<Element>, s2: Multiset<Element>)
    requires visited(h0, n0, h1, n1, k, s1), visited(h1, n1, h2, n2, k, s2),
    ensures visited(h0, n0, h2, n2, k, s1.add(s2)),
{
    let s = s1.add(s2);
    assert forall|e: Element| #![trigger h2.count(e)] h0.count(e) <= h2.count(e) <= h0.count(e) + s.count(e) by { assert(h0.count(e) <= h1.count(e) <= h0.count(e) + s1.count(e)); }
    assert forall|x: int| #![trigger full(n2, k, x)] #![trigger full(n0, k, x)] full(n0, k, x) implies full(n2, k, x) by { assert(full(n1, k, x)); }
    assert forall|e: Element| #![trigger s.count(e)] s.count(e) > 0 implies h2.count(e) > 0 || full(n2, k, rank(e.distance)) by {
        if s1.count(e) > 0 {
            assert(h1.count(e) > 0 || full(n1, k, rank(e.distance)));
            if h1.count(e) > 0 { assert(h1.count(e) <= h2.count(e)); } else { assert(full(n2, k, rank(e.distance))); }
        } else { assert(s2.count(e) > 0); }
    }
}
/// One point is pushed, and the farthest dropped when there are more than k.
pub proof fn lemma_keep(h0: Multiset<Element>, n0: Multiset<Reverse<Element>>, h1: Multiset<Element>, n1: Multiset<Reverse<Element>>, k: int, e: Element)
    requires tracks(h0, n0, k), h1 == h0.insert(e), e.ok(), k >= 1,
        ({
            let n = n0.insert(Reverse(e));
            if n.len() > k { exists|x: Reverse<Element>| #![trigger n.remove(x)] n.count(x) > 0 && n1 == n.remove(x) && is_top(n, x) } else { n1 == n }
        }),
    ensures tracks(h1, n1, k), visited(h0, n0, h1, n1, k, Multiset::empty().insert(e)),
{
    let n = n0.insert(Reverse(e));
    let one = Multiset::<Element>::empty().insert(e);
    assert forall|y: Reverse<Element>| n.count(y) > 0 implies (#[trigger] y.ok()) by {
        if y != Reverse(e) { assert(n0.count(Reverse(y.0)) <= h0.count(y.0)); assert(h0.count(y.0) > 0); assert(y.0.ok()); }
    }
    assert forall|y: Element| #![trigger n1.count(Reverse(y))] n1.count(Reverse(y)) <= h1.count(y) by {
        assert(n0.count(Reverse(y)) <= h0.count(y));
        assert(n.count(Reverse(y)) == n0.count(Reverse(y)) + if y == e { 1nat } else { 0 });
    }
    assert forall|x: int| #![trigger full(n1, k, x)] #![trigger full(n0, k, x)] full(n0, k, x) implies full(n1, k, x) by {
        let t = choose|t: Reverse<Element>| #![trigger n.remove(t)] n.count(t) > 0 && n1 == n.remove(t) && is_top(n, t);
        assert(n.count(Reverse(e)) > 0);
        assert(Reverse(e).prio() <= t.prio());
        assert forall|y: Reverse<Element>| #![trigger n1.count(y)] n1.count(y) > 0 implies rank(y.0.distance) <= x by {
            assert(n.count(y) > 0);
            assert(y.prio() <= t.prio());
            if rank(e.distance) > x {
                if t != Reverse(e) { assert(n0.count(t) > 0); }
                assert(n1 =~= n0);
            } else if y != Reverse(e) { assert(n0.count(y) > 0); }
        }
    }
}
pub proof fn lemma_cut(heap: Multiset<Element>, near: Multiset<Reverse<Element>>, k: int, a: F, furthest: F)
    requires tracks(heap, near, k), near.len() == k, !nan(a), !fle(a, furthest),
        exists|t: Reverse<Element>| #![trigger near.count(t)] near.count(t) > 0 && is_top(near, t) && t.0.distance == furthest,
    ensures forall|x: int| #![trigger full(near, k, x)] rank(a) <= x ==> full(near, k, x),
{
    assert forall|y: Reverse<Element>| near.count(y) > 0 implies (#[trigger] y.ok()) by {
        assert(near.count(Reverse(y.0)) <= heap.count(y.0));
        assert(heap.count(y.0) > 0);
        assert(y.0.ok());
    }
    let t = choose|t: Reverse<Element>| #![trigger near.count(t)] near.count(t) > 0 && is_top(near, t) && t.0.distance == furthest;
    assert(t.ok());
    assert forall|x: int| #![trigger full(near, k, x)] rank(a) <= x implies full(near, k, x) by {
        assert forall|y: Reverse<Element>| #![trigger near.count(y)] near.count(y) > 0 implies rank(y.0.distance) <= x by { assert(y.prio() <= t.prio()); }
    }
}
pub proof fn lemma_pick_len(n: Option<Box<Node>>, d: Seq<P>, m: DistanceMetric, q: P)
    ensures pick(n, d, m, q, None).len() == ids(n).len(),
    decreases n
{
    if let Some(b) = n {
        lemma_pick_len(b.left, d, m, q);
        lemma_pick_len(b.right, d, m, q);
    }
}
pub proof fn lemma_sub_len<T>(a: Multiset<T>, b: Multiset<T>)
    requires a.subset_of(b),
    ensures a.len() <= b.len(), a.len() == b.len() ==> a == b,
{
    let c = b.sub(a);
    assert(b =~= a.add(c));
    if a.len() == b.len() { assert(c.len() == 0); assert(c =~= Multiset::empty()); assert(a =~= b); }
}
pub proof fn lemma_room(h0: Multiset<Element>, n0: Multiset<Reverse<Element>>, h1: Multiset<Element>, n1: Multiset<Reverse<Element>>, k: int, sel: Multiset<Element>)
    requires visited(h0, n0, h1, n1, k, sel),
    ensures h1.len() <= h0.len() + sel.len(),
{
    assert(h1.subset_of(h0.add(sel)));
    lemma_sub_len(h1, h0.add(sel));
}
pub proof fn lemma_whole_len(n: Option<Box<Node>>, d: Seq<P>, m: DistanceMetric, q: P)
    requires holds_all(n, d), d.len() <= usize::MAX,
    ensures ids(n).len() == d.len(), pick(n, d, m, q, None).len() == d.len(),
{
    let s = Seq::new(d.len(), |i: int| i as usize);
    assert(s.no_duplicates());
    s.lemma_multiset_has_no_duplicates();
    s.to_multiset_ensures();
    assert forall|i: usize| #![trigger s.to_multiset().count(i)] s.to_multiset().count(i) == if i < d.len() { 1nat } else { 0nat } by {
        if i < d.len() { assert(s[i as int] == i); assert(s.contains(i)); } else { assert(!s.contains(i)); }
    }
    assert(ids(n) =~= s.to_multiset());
    lemma_pick_len(n, d, m, q);
}
pub open spec fn nothing_nearer(t: &KDTree, q: P, s: Seq<Neighbor>) -> bool {
    forall|i: int| #![trigger t.dist(q, i)] 0 <= i < t.dataset@.len() && s.len() > 0 && (forall|j: int| 0 <= j < s.len() ==> s[j].index != i) ==> rank(s.last().distance) <= rank(t.dist(q, i))
}
pub open spec fn reversed(s: Seq<Element>) -> Seq<Reverse<Element>> { s.map_values(|e: Element| Reverse(e)) }
pub proof fn lemma_reversed(s: Seq<Element>, e: Element)
    ensures reversed(s).to_multiset().count(Reverse(e)) == s.to_multiset().count(e),
    decreases s.len()
{
    s.to_multiset_ensures();
    reversed(s).to_multiset_ensures();
    if s.len() > 0 {
        lemma_reversed(s.drop_last(), e);
        s.drop_last().to_multiset_ensures();
        reversed(s.drop_last()).to_multiset_ensures();
        assert(s =~= s.drop_last().push(s.last()));
        assert(reversed(s) =~= reversed(s.drop_last()).push(Reverse(s.last())));
    } else {
        assert(s.to_multiset() =~= Multiset::empty());
        assert(reversed(s).to_multiset() =~= Multiset::empty());
    }
}
/// When k points at distance at most x are known, the k-th taken out is at distance at most x.
pub proof fn lemma_knn(total: Multiset<Element>, near: Multiset<Reverse<Element>>, s: Seq<Neighbor>, rest: Multiset<Element>, k: int, x: int)
    requires tracks(total, near, k), full(near, k, x), total == rest.add(elements(s).to_multiset()), popped_order(s, rest), 0 < s.len() <= k,
    ensures rank(s.last().distance) <= x,
{
    if rank(s.last().distance) > x {
        let es = elements(s);
        let short = es.drop_last();
        let rs = reversed(short);
        es.to_multiset_ensures();
        short.to_multiset_ensures();
        rs.to_multiset_ensures();
        assert(es =~= short.push(es.last()));
        assert forall|r: Reverse<Element>| near.count(r) <= #[trigger] rs.to_multiset().count(r) by {
            if near.count(r) > 0 {
                let e = r.0;
                assert(r == Reverse(e));
                assert(near.count(Reverse(e)) <= total.count(e));
                if rest.count(e) > 0 { assert(rank(s[s.len() - 1].distance) <= rank(e.distance)); }
                lemma_reversed(short, e);
                assert(es.to_multiset().count(e) == short.to_multiset().count(e));
            }
        }
        assert(near.subset_of(rs.to_multiset()));
        lemma_sub_len(near, rs.to_multiset());
    }
}
/// No index twice.
pub open spec fn heap_ok(h: Multiset<Element>) -> bool {
    &&& forall|e: Element| #![trigger h.count(e)] h.count(e) <= 1
    &&& forall|a: Element, b: Element| #![trigger h.count(a), h.count(b)] h.count(a) > 0 && h.count(b) > 0 && a.index == b.index ==> a == b
}
pub open spec fn elements(s: Seq<Neighbor>) -> Seq<Element> { s.map_values(|x: Neighbor| Element { index: x.index, distance: x.distance }) }
pub open spec fn as_element(x: Neighbor) -> Element { Element { index: x.index, distance: x.distance } }
/// What was taken out is in ascending order, and nothing left is nearer.
pub open spec fn popped_order(s: Seq<Neighbor>, rest: Multiset<Element>) -> bool {
    &&& forall|a: int, b: int| #![trigger s[a], s[b]] 0 <= a < b < s.len() ==> rank(s[a].distance) <= rank(s[b].distance)
    &&& forall|a: int, e: Element| #![trigger s[a], rest.count(e)] 0 <= a < s.len() && rest.count(e) > 0 ==> rank(s[a].distance) <= rank(e.distance)
}
pub proof fn lemma_popped(total: Multiset<Element>, h0: Multiset<Element>, h1: Multiset<Element>, s0: Seq<Neighbor>, s1: Seq<Neighbor>, e: Element)
    requires total == h0.add(elements(s0).to_multiset()), h0.count(e) > 0, h1 == h0.remove(e), is_top(h0, e),
        forall|x: Element| #![trigger x.ok()] total.count(x) > 0 ==> x.ok(),
        popped_order(s0, h0), s1 == s0.push(Neighbor { index: e.index, distance: e.distance }),
    ensures total == h1.add(elements(s1).to_multiset()), popped_order(s1, h1), h1.len() < h0.len(),
{
    assert(elements(s1) =~= elements(s0).push(e));
    elements(s0).to_multiset_ensures();
    assert(h1.add(elements(s1).to_multiset()) =~= total);
    assert forall|x: Element| h0.count(x) > 0 implies (#[trigger] x.ok()) by { assert(total.count(x) > 0); }
    assert forall|a: int, x: Element| #![trigger s1[a], h1.count(x)] 0 <= a < s1.len() && h1.count(x) > 0 implies rank(s1[a].distance) <= rank(x.distance) by {
        assert(h0.count(x) > 0);
        if a == s0.len() { assert(x.prio() <= e.prio()); }
    }
    assert forall|a: int, b: int| #![trigger s1[a], s1[b]] 0 <= a < b < s1.len() implies rank(s1[a].distance) <= rank(s1[b].distance) by {
        if b == s0.len() { assert(h0.count(e) > 0); }
    }
}
/// The list of all selected elements, read back as a list of neighbours.
pub proof fn lemma_listed(n: Option<Box<Node>>, d: Seq<P>, m: DistanceMetric, q: P, lim: Option<F>, s: Seq<Neighbor>)
    requires holds_all(n, d), allfin(d), pfin(q), forall|e: Element| #![trigger elements(s).to_multiset().count(e)] elements(s).to_multiset().count(e) <= pick(n, d, m, q, lim).count(e),
    ensures
        forall|j: int| #![trigger s[j]] 0 <= j < s.len() ==> s[j].index < d.len() && s[j].distance == mspec(m, d[s[j].index as int], q) && within(s[j].distance, lim),
        forall|a: int, b: int| #![trigger s[a], s[b]] 0 <= a < b < s.len() ==> s[a].index != s[b].index,
        forall|e: Element| #![trigger elements(s).to_multiset().count(e)] elements(s).to_multiset().count(e) > 0 ==> exists|j: int| #![trigger s[j]] 0 <= j < s.len() && s[j].index == e.index,
{
    lemma_whole(n, d, m, q, lim);
    let es = elements(s);
    es.to_multiset_ensures();
    assert forall|j: int| #![trigger s[j]] 0 <= j < s.len() implies s[j].index < d.len() && s[j].distance == mspec(m, d[s[j].index as int], q) && within(s[j].distance, lim) by {
        assert(es.contains(es[j]));
        assert(es.to_multiset().count(es[j]) > 0);
        assert(pick(n, d, m, q, lim).count(es[j]) > 0);
    }
    assert forall|a: int, b: int| #![trigger s[a], s[b]] 0 <= a < b < s.len() implies s[a].index != s[b].index by {
        if s[a].index == s[b].index {
            assert(es[a] == es[b]);
            lemma_twice(es, a, b);
            assert(es.to_multiset().count(es[a]) >= 2);
            assert(pick(n, d, m, q, lim).count(es[a]) <= 1);
        }
    }
    assert forall|e: Element| #![trigger es.to_multiset().count(e)] es.to_multiset().count(e) > 0 implies exists|j: int| #![trigger s[j]] 0 <= j < s.len() && s[j].index == e.index by {
        assert(es.contains(e));
        let j = choose|j: int| 0 <= j < es.len() && es[j] == e;
        assert(s[j].index == e.index);
    }
}
#[verifier::opaque]
pub open spec fn along(s: Seq<usize>, d: Seq<P>, axis: int) -> bool {
    forall|i: int, j: int| 0 <= i < j < s.len() ==> rank(pc(d[(#[trigger] s[i]) as int], axis)) <= rank(pc(d[(#[trigger] s[j]) as int], axis))
}
/// From the sorted indices s: the node at the middle, its subtrees over the two halves; s2 is what the recursion left.
pub proof fn lemma_built(n: Node, d: Seq<P>, before: Seq<usize>, s: Seq<usize>, s1: Seq<usize>, s2: Seq<usize>, m: int)
    requires 0 <= m < s.len(), s1.len() == s.len(), s2.len() == s.len(), before.to_multiset() == s.to_multiset(), along(s, d, n.axis as int),
        forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> s[i] < d.len(),
        n.axis < pdim(), n.index == s[m], s1[m] == s[m], s2[m] == s[m],
        s1.subrange(0, m) == s2.subrange(0, m), s1.subrange(0, m).to_multiset() == s.subrange(0, m).to_multiset(),
        s2.subrange(m + 1, s.len() as int).to_multiset() == s.subrange(m + 1, s.len() as int).to_multiset(),
        ids(n.left) == s.subrange(0, m).to_multiset(), ids(n.right) == s.subrange(m + 1, s.len() as int).to_multiset(),
        tree_ok(n.left, d), tree_ok(n.right, d),
    ensures s2.to_multiset() == before.to_multiset(), ids(Some(Box::new(n))) == before.to_multiset(), tree_ok(Some(Box::new(n)), d),
{
    let (a, b) = (s.subrange(0, m), s.subrange(m + 1, s.len() as int));
    lemma_halves(s, m);
    lemma_halves(s2, m);
    lemma_elements(a);
    lemma_elements(b);
    reveal(along);
    let c = n.axis as int;
    assert forall|i: usize| #![trigger ids(n.left).count(i)] ids(n.left).count(i) > 0 implies i < d.len() && rank(pc(d[i as int], c)) <= rank(pc(d[n.index as int], c)) by {
        let j = choose|j: int| 0 <= j < a.len() && a[j] == i;
        assert(s[j] == i);
    }
    assert forall|i: usize| #![trigger ids(n.right).count(i)] ids(n.right).count(i) > 0 implies i < d.len() && rank(pc(d[i as int], c)) >= rank(pc(d[n.index as int], c)) by {
        let j = choose|j: int| 0 <= j < b.len() && b[j] == i;
        assert(s[m + 1 + j] == i);
    }
    assert(ids(Some(Box::new(n))) == ids(n.left).add(ids(n.right)).insert(n.index));
}
pub proof fn lemma_halves(s: Seq<usize>, m: int)
    requires 0 <= m < s.len(),
    ensures s.to_multiset() == s.subrange(0, m).to_multiset().add(s.subrange(m + 1, s.len() as int).to_multiset()).insert(s[m]),
{
    let (a, b) = (s.subrange(0, m), s.subrange(m + 1, s.len() as int));
    assert(s =~= a.push(s[m]) + b);
    vstd::seq_lib::lemma_multiset_commutative(a.push(s[m]), b);
    a.to_multiset_ensures();
    assert(a.push(s[m]).to_multiset() == a.to_multiset().insert(s[m]));
    assert(a.to_multiset().insert(s[m]).add(b.to_multiset()) =~= a.to_multiset().add(b.to_multiset()).insert(s[m]));
}
pub proof fn lemma_elements(s: Seq<usize>)
    ensures forall|v: usize| #![trigger s.to_multiset().count(v)] s.to_multiset().count(v) > 0 ==> s.contains(v),
{
    s.to_multiset_ensures();
    assert forall|v: usize| #![trigger s.to_multiset().count(v)] s.to_multiset().count(v) > 0 implies s.contains(v) by {}
}
} // verus!
