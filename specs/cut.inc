verus! {
/// x is a leaf of the subtree of node id.
pub open spec fn leaf(h: Seq<Node>, n: int, id: int, x: int) -> bool
    decreases id
{
    if id < n || id >= n + h.len() { id == x } else {
        let nd = h[id - n];
        (nd.left < id && leaf(h, n, nd.left as int, x)) || (nd.right < id && leaf(h, n, nd.right as int, x))
    }
}
/// The number of merges in the subtree of node id.
pub open spec fn inner(h: Seq<Node>, n: int, id: int) -> nat
    decreases id
{
    if id < n || id >= n + h.len() { 0 } else {
        let nd = h[id - n];
        1 + (if nd.left < id { inner(h, n, nd.left as int) } else { 0 }) + (if nd.right < id { inner(h, n, nd.right as int) } else { 0 })
    }
}
pub open spec fn inner_sum(h: Seq<Node>, n: int, ids: Seq<int>) -> nat
    decreases ids.len()
{
    if ids.len() == 0 { 0 } else { inner_sum(h, n, ids.drop_last()) + inner(h, n, ids.last()) }
}
pub proof fn lemma_inner_first(h: Seq<Node>, n: int, ids: Seq<int>)
    requires ids.len() > 0,
    ensures inner_sum(h, n, ids) == inner(h, n, ids[0]) + inner_sum(h, n, ids.drop_first()),
    decreases ids.len()
{
    if ids.len() == 1 {
        assert(ids.drop_last().len() == 0);
        assert(ids.drop_first().len() == 0);
    } else {
        lemma_inner_first(h, n, ids.drop_last());
        assert(ids.drop_last().drop_first() =~= ids.drop_first().drop_last());
    }
}
pub proof fn lemma_inner_push(h: Seq<Node>, n: int, ids: Seq<int>, id: int)
    ensures inner_sum(h, n, ids.push(id)) == inner_sum(h, n, ids) + inner(h, n, id),
{ assert(ids.push(id).drop_last() =~= ids); }
/// The leaves of a group are its members.
pub proof fn lemma_leaf_top(h: Seq<Node>, n: int, m: int, id: int, x: int)
    requires merges(h, n), 0 <= m < n, 0 <= x < n, alive(h, n, m, id),
    ensures leaf(h, n, id, x) <==> top(h, n, m, x) == id,
    decreases m
{
    if m > 0 {
        lemma_alive_step(h, n, m, id);
        let (l, r) = (h[m - 1].left as int, h[m - 1].right as int);
        assert(alive(h, n, m - 1, l) && alive(h, n, m - 1, r));
        if id == n + m - 1 {
            lemma_leaf_top(h, n, m - 1, l, x);
            lemma_leaf_top(h, n, m - 1, r, x);
            lemma_top_alive(h, n, m - 1, x);
        } else {
            lemma_leaf_top(h, n, m - 1, id, x);
        }
    }
}
pub proof fn lemma_some_leaf(h: Seq<Node>, n: int, id: int) -> (x: int)
    requires merges(h, n), 0 <= id < n + h.len(),
    ensures 0 <= x < n, leaf(h, n, id, x),
    decreases id
{
    if id < n { id } else {
        assert(alive(h, n, id - n, h[id - n].left as int));
        lemma_some_leaf(h, n, h[id - n].left as int)
    }
}
impl Prio for usize {
    open spec fn ok(&self) -> bool { true }
    open spec fn prio(&self) -> int { *self as int }
}
/// The heap holds the groups that exist after m merges, each once.
#[verifier::opaque]
pub open spec fn holds(h: Seq<Node>, n: int, m: int, ms: Multiset<usize>) -> bool {
    forall|id: usize| #[trigger] ms.count(id) == if alive(h, n, m, id as int) { 1nat } else { 0nat }
}
pub proof fn lemma_holds_start(h: Seq<Node>, n: int)
    requires merges(h, n), n >= 2,
    ensures holds(h, n, n - 1, Multiset::<usize>::empty().insert((2 * n - 2) as usize)),
{
    reveal(holds);
    assert forall|id: usize| #[trigger] Multiset::<usize>::empty().insert((2 * n - 2) as usize).count(id) == if alive(h, n, n - 1, id as int) { 1nat } else { 0nat } by { lemma_alive_last(h, n, id as int); }
}
/// Splitting the top group undoes the latest merge.
pub proof fn lemma_holds_split(h: Seq<Node>, n: int, m: int, ms: Multiset<usize>, id: usize)
    requires merges(h, n), 1 <= m < n, holds(h, n, m, ms), ms.count(id) > 0, is_top(ms, id),
    ensures id == n + m - 1, holds(h, n, m - 1, ms.remove(id).insert(h[m - 1].left).insert(h[m - 1].right)),
{
    reveal(holds);
    let last = (n + m - 1) as usize;
    lemma_alive_step(h, n, m, last as int);
    assert(ms.count(last) == 1);
    assert(last.prio() <= id.prio());
    assert(alive(h, n, m, id as int));
    let (l, r) = (h[m - 1].left, h[m - 1].right);
    let m2 = ms.remove(id).insert(l).insert(r);
    assert(alive(h, n, m - 1, l as int) && alive(h, n, m - 1, r as int));
    assert forall|i: usize| #[trigger] m2.count(i) == if alive(h, n, m - 1, i as int) { 1nat } else { 0nat } by {
        lemma_alive_step(h, n, m, i as int);
        assert(ms.count(i) == if alive(h, n, m, i as int) { 1nat } else { 0nat });
        lemma_alive_step(h, n, m, l as int);
        lemma_alive_step(h, n, m, r as int);
        assert(ms.count(l) == if alive(h, n, m, l as int) { 1nat } else { 0nat });
        assert(ms.count(r) == if alive(h, n, m, r as int) { 1nat } else { 0nat });
    }
}
/// After c groups were labelled, ms holds the others.
#[verifier::opaque]
pub open spec fn labelling(h: Seq<Node>, n: int, m: int, ms: Multiset<usize>, labels: Seq<usize>, c: int) -> bool {
    &&& labels.len() == n
    &&& forall|id: usize| #[trigger] ms.count(id) > 0 ==> alive(h, n, m, id as int) && ms.count(id) == 1
    &&& forall|x: int| #![trigger labels[x]] 0 <= x < n && ms.count(top(h, n, m, x) as usize) == 0 ==> labels[x] < c
    &&& forall|x: int, y: int| #![trigger labels[x], labels[y]] 0 <= x < n && 0 <= y < n && ms.count(top(h, n, m, x) as usize) == 0 && ms.count(top(h, n, m, y) as usize) == 0
            ==> (labels[x] == labels[y] <==> top(h, n, m, x) == top(h, n, m, y))
    &&& forall|l: int| 0 <= l < c ==> #[trigger] used(h, n, m, ms, labels, l)
}
pub open spec fn used(h: Seq<Node>, n: int, m: int, ms: Multiset<usize>, labels: Seq<usize>, l: int) -> bool {
    exists|x: int| 0 <= x < n && #[trigger] labels[x] == l && ms.count(top(h, n, m, x) as usize) == 0
}
pub proof fn lemma_labelling_start(h: Seq<Node>, n: int, m: int, ms: Multiset<usize>, labels: Seq<usize>)
    requires merges(h, n), 0 <= m < n, holds(h, n, m, ms), labels.len() == n,
    ensures labelling(h, n, m, ms, labels, 0),
{
    reveal(holds); reveal(labelling);
    assert forall|x: int| 0 <= x < n implies ms.count(#[trigger] top(h, n, m, x) as usize) == 1 by { lemma_top_alive(h, n, m, x); }
}
pub proof fn lemma_labelling_step(h: Seq<Node>, n: int, m: int, ms: Multiset<usize>, a: Seq<usize>, c: int, id: usize, b: Seq<usize>)
    requires merges(h, n), 0 <= m < n, labelling(h, n, m, ms, a, c), ms.count(id) > 0, b.len() == n, 0 <= c <= usize::MAX,
        forall|x: int| #![trigger b[x]] 0 <= x < n ==> b[x] == if leaf(h, n, id as int, x) { c } else { a[x] as int },
    ensures labelling(h, n, m, ms.remove(id), b, c + 1),
{
    reveal(labelling);
    let m2 = ms.remove(id);
    assert(ms.count(id) == 1);
    assert forall|x: int| 0 <= x < n implies (leaf(h, n, id as int, x) <==> #[trigger] top(h, n, m, x) == id) && 0 <= top(h, n, m, x) < n + m by { lemma_leaf_top(h, n, m, id as int, x); lemma_top_alive(h, n, m, x); }
    assert forall|x: int| #![trigger b[x]] 0 <= x < n && m2.count(top(h, n, m, x) as usize) == 0 implies (if top(h, n, m, x) == id { b[x] == c } else { b[x] == a[x] && a[x] < c && ms.count(top(h, n, m, x) as usize) == 0 }) by {}
    assert forall|l: int| 0 <= l < c + 1 implies #[trigger] used(h, n, m, m2, b, l) by {
        if l < c {
            assert(used(h, n, m, ms, a, l));
            let x = choose|x: int| 0 <= x < n && #[trigger] a[x] == l && ms.count(top(h, n, m, x) as usize) == 0;
            assert(b[x] == l);
        } else {
            let x = lemma_some_leaf(h, n, id as int);
            assert(b[x] == c);
        }
    }
    assert forall|x: int, y: int| #![trigger b[x], b[y]] 0 <= x < n && 0 <= y < n && m2.count(top(h, n, m, x) as usize) == 0 && m2.count(top(h, n, m, y) as usize) == 0
            implies (b[x] == b[y] <==> top(h, n, m, x) == top(h, n, m, y)) by {
        let _ = a[x]; let _ = a[y];
        assert(b[x] == b[x] && b[y] == b[y]);
    }
}
/// Labels 0..k are all used, and points share one exactly when the first n - k merges join them.
pub open spec fn cut(h: Seq<Node>, n: int, k: int, labels: Seq<usize>) -> bool {
    &&& labels.len() == n
    &&& forall|x: int| #![trigger labels[x]] 0 <= x < n ==> labels[x] < k
    &&& forall|l: int| 0 <= l < k ==> #[trigger] labels.contains(l as usize)
    &&& forall|x: int, y: int| #![trigger labels[x], labels[y]] 0 <= x < n && 0 <= y < n ==> (labels[x] == labels[y] <==> top(h, n, n - k, x) == top(h, n, n - k, y))
}
pub proof fn lemma_labelling_done(h: Seq<Node>, n: int, k: int, ms: Multiset<usize>, labels: Seq<usize>)
    requires merges(h, n), 1 <= k <= n, labelling(h, n, n - k, ms, labels, k), ms.len() == 0,
    ensures cut(h, n, k, labels),
{
    reveal(labelling);
    assert forall|id: usize| #[trigger] ms.count(id) == 0 by { if ms.count(id) > 0 { assert(ms.remove(id).len() == ms.len() - 1); } }
    assert forall|l: int| 0 <= l < k implies #[trigger] labels.contains(l as usize) by {
        assert(used(h, n, n - k, ms, labels, l));
        let x = choose|x: int| 0 <= x < n && #[trigger] labels[x] == l && ms.count(top(h, n, n - k, x) as usize) == 0;
        assert(labels[x] == l as usize);
    }
}
/// One group holds everything.
pub proof fn lemma_cut_one(h: Seq<Node>, n: int)
    requires merges(h, n), n >= 1,
    ensures forall|l: Seq<usize>| l.len() == n && (forall|i: int| #![trigger l[i]] 0 <= i < n ==> l[i] == 0) ==> #[trigger] cut(h, n, 1, l),
{
    assert forall|x: int| 0 <= x < n implies #[trigger] top(h, n, n - 1, x) == 2 * n - 2 by {
        if n >= 2 { lemma_top_alive(h, n, n - 1, x); lemma_alive_last(h, n, top(h, n, n - 1, x)); }
    }
    assert forall|l: Seq<usize>| l.len() == n && (forall|i: int| #![trigger l[i]] 0 <= i < n ==> l[i] == 0) implies #[trigger] cut(h, n, 1, l) by {
        assert(l.contains(l[0]));
        assert forall|x: int, y: int| #![trigger l[x], l[y]] 0 <= x < n && 0 <= y < n implies (l[x] == l[y] <==> top(h, n, n - 1, x) == top(h, n, n - 1, y)) by {}
    }
}
/// What breadth-first labelling knows: every leaf is labelled or below a queued node.
#[verifier::opaque]
pub open spec fn bfs_inv(h: Seq<Node>, n: int, id: int, c: usize, ids: Seq<int>, a: Seq<usize>, b: Seq<usize>) -> bool {
    &&& b.len() == n && a.len() == n
    &&& forall|i: int| #![trigger ids[i]] 0 <= i < ids.len() ==> n <= ids[i] < n + h.len()
    &&& forall|i: int, x: int| 0 <= i < ids.len() && 0 <= x < n && #[trigger] leaf(h, n, ids[i], x) ==> leaf(h, n, id, x)
    &&& forall|x: int| #![trigger b[x]] 0 <= x < n && leaf(h, n, id, x) ==> b[x] == c || below(h, n, ids, x)
    &&& forall|x: int| #![trigger b[x]] 0 <= x < n && !leaf(h, n, id, x) ==> b[x] == a[x]
}
pub open spec fn below(h: Seq<Node>, n: int, ids: Seq<int>, x: int) -> bool {
    exists|i: int| 0 <= i < ids.len() && #[trigger] leaf(h, n, ids[i], x)
}
pub proof fn lemma_bfs_start(h: Seq<Node>, n: int, id: int, c: usize, a: Seq<usize>)
    requires merges(h, n), n <= id < n + h.len(), a.len() == n,
    ensures bfs_inv(h, n, id, c, seq![id], a, a),
{
    reveal(bfs_inv);
    assert forall|x: int| 0 <= x < n && #[trigger] leaf(h, n, id, x) implies below(h, n, seq![id], x) by { assert(seq![id][0] == id); }
}
/// The front node is replaced by its children; children that are points are labelled.
pub open spec fn child_ids(n: int, l: int, r: int) -> Seq<int> {
    (if l >= n { seq![l] } else { Seq::empty() }) + (if r >= n { seq![r] } else { Seq::empty() })
}
pub proof fn lemma_bfs_step(h: Seq<Node>, n: int, id: int, c: usize, ids: Seq<int>, a: Seq<usize>, b: Seq<usize>, b2: Seq<usize>, ids2: Seq<int>)
    requires merges(h, n), bfs_inv(h, n, id, c, ids, a, b), ids.len() > 0, b2.len() == n,
        ids2 == ids.drop_first() + child_ids(n, h[ids[0] - n].left as int, h[ids[0] - n].right as int),
        forall|x: int| #![trigger b2[x]] 0 <= x < n ==> b2[x] == if x == h[ids[0] - n].left || x == h[ids[0] - n].right { c } else { b[x] },
    ensures bfs_inv(h, n, id, c, ids2, a, b2), inner_sum(h, n, ids2) < inner_sum(h, n, ids),
{
    reveal(bfs_inv);
    let f = ids[0];
    let (l, r) = (h[f - n].left as int, h[f - n].right as int);
    assert(alive(h, n, f - n, l) && alive(h, n, f - n, r));
    let d = ids.drop_first();
    let ch = child_ids(n, l, r);
    assert forall|x: int| 0 <= x < n implies (leaf(h, n, f, x) <==> #[trigger] leaf(h, n, l, x) || leaf(h, n, r, x)) by {}
    reveal_with_fuel(leaf, 2);
    assert(l < n ==> leaf(h, n, l, l) && leaf(h, n, f, l));
    assert(r < n ==> leaf(h, n, r, r) && leaf(h, n, f, r));
    assert forall|i: int| #![trigger ids2[i]] 0 <= i < ids2.len() implies (i < d.len() && ids2[i] == ids[i + 1]) || (i >= d.len() && (ids2[i] == l || ids2[i] == r) && ids2[i] >= n) by {}
    assert forall|i: int, x: int| 0 <= i < ids2.len() && 0 <= x < n && #[trigger] leaf(h, n, ids2[i], x) implies leaf(h, n, id, x) by {
        if i < d.len() { assert(leaf(h, n, ids[i + 1], x)); } else { assert(leaf(h, n, ids[0], x)); }
    }
    assert(leaf(h, n, ids[0], l) == leaf(h, n, f, l) && leaf(h, n, ids[0], r) == leaf(h, n, f, r));
    assert forall|x: int| #![trigger b2[x]] 0 <= x < n && leaf(h, n, id, x) implies b2[x] == c || below(h, n, ids2, x) by {
        if b[x] != c {
            assert(below(h, n, ids, x));
            let i = choose|i: int| 0 <= i < ids.len() && #[trigger] leaf(h, n, ids[i], x);
            if i > 0 {
                assert(ids2[i - 1] == ids[i]);
            } else if leaf(h, n, l, x) {
                if l >= n { assert(ids2[d.len() as int] == l); } else { assert(x == l); }
            } else {
                assert(leaf(h, n, r, x));
                if r >= n { assert(ids2[ids2.len() - 1] == r); } else { assert(x == r); }
            }
        }
    }
    lemma_inner_first(h, n, ids);
    let e1 = if l >= n { d.push(l) } else { d };
    let e2 = if r >= n { e1.push(r) } else { e1 };
    assert(ids2 =~= e2);
    lemma_inner_push(h, n, d, l);
    lemma_inner_push(h, n, e1, r);
}
pub proof fn lemma_bfs_done(h: Seq<Node>, n: int, id: int, c: usize, ids: Seq<int>, a: Seq<usize>, b: Seq<usize>)
    requires bfs_inv(h, n, id, c, ids, a, b), ids.len() == 0,
    ensures b.len() == n, forall|x: int| #![trigger b[x]] 0 <= x < n ==> b[x] == if leaf(h, n, id, x) { c } else { a[x] },
{ reveal(bfs_inv); }

impl HierarchicalClustering {
//@fn HierarchicalClustering::bfs
    requires merges(self.hierarchy@, self.hierarchy.len() + 1), self.hierarchy.len() < root_node_id <= 2 * self.hierarchy.len(), old(labels).len() == self.hierarchy.len() + 1,
    ensures final(labels)@.len() == old(labels)@.len(),
        forall|x: int| #![trigger final(labels)@[x]] 0 <= x < old(labels)@.len() ==> final(labels)@[x] == if leaf(self.hierarchy@, self.hierarchy.len() + 1, root_node_id as int, x) { cluster_id } else { old(labels)@[x] },
//@names root_node_id cluster_id labels n_edge n_data root_node queue node left_id right_id
//@nloops 1
//@at before loop 0
    let ghost h = self.hierarchy@;
    let ghost n = n_data as int;
    let ghost mut ids: Seq<int> = seq![root_node_id as int];
    let ghost labels0 = labels@;
    proof { lemma_bfs_start(h, n, root_node_id as int, cluster_id, labels@); }
//@loop 0
    invariant_except_break merges(h, n), h == self.hierarchy@, n == n_data == h.len() + 1,
        queue@.len() == ids.len(), forall|i: int| #![trigger queue@[i]] 0 <= i < ids.len() ==> *queue@[i] == h[ids[i] - n],
        forall|i: int| #![trigger ids[i]] 0 <= i < ids.len() ==> n <= ids[i] < n + h.len(),
        bfs_inv(h, n, root_node_id as int, cluster_id, ids, labels0, labels@), labels@.len() == n,
    ensures labels@.len() == n, forall|x: int| #![trigger labels@[x]] 0 <= x < n ==> labels@[x] == if leaf(h, n, root_node_id as int, x) { cluster_id } else { labels0[x] },
    decreases inner_sum(h, n, ids),
//@at loop 0 start
    let ghost (ids0, b0) = (ids, labels@);
    let ghost mut nd = h[ids[0] - n];
    proof {
        if ids.len() == 0 {
            lemma_bfs_done(h, n, root_node_id as int, cluster_id, ids, labels0, labels@);
        } else {
            let f = ids[0];
            assert(*queue@[0] == h[f - n]);
            assert(alive(h, n, f - n, h[f - n].left as int) && alive(h, n, f - n, h[f - n].right as int));
        }
    }
//@at loop 0 end
    proof {
        ids = ids0.drop_first() + child_ids(n, nd.left as int, nd.right as int);
        assert forall|x: int| #![trigger labels@[x]] 0 <= x < n implies labels@[x] == if x == nd.left || x == nd.right { cluster_id } else { b0[x] } by {}
        lemma_bfs_step(h, n, root_node_id as int, cluster_id, ids0, labels0, b0, labels@, ids);
        assert forall|i: int| #![trigger queue@[i]] 0 <= i < ids.len() implies *queue@[i] == h[ids[i] - n] by {}
        reveal(bfs_inv);
    }
//@end

//@fn HierarchicalClustering::partition
    requires merges(self.hierarchy@, self.hierarchy.len() + 1), k <= self.hierarchy.len() + 1,
    ensures k >= 1 ==> cut(self.hierarchy@, self.hierarchy.len() + 1, k as int, r@),
        k == 0 ==> r@.len() == self.hierarchy.len() + 1 && forall|x: int| 0 <= x < r@.len() ==> r@[x] == 0,
//@names k n_edge n_data labels node_ids root_node_id node_id node cluster_id
//@nloops 2
//@at start
    let ghost h = self.hierarchy@;
    let ghost n: int = self.hierarchy.len() + 1;
    proof { lemma_cut_one(h, n); }
//@at before let node_ids
    proof { lemma_holds_start(h, n); }
//@loop 0
    invariant_except_break merges(h, n), h == self.hierarchy@, n == n_data == h.len() + 1, 2 <= k <= n, labels.len() == n,
        1 <= node_ids.ms().len() <= k, holds(h, n, n - node_ids.ms().len(), node_ids.ms()),
    ensures node_ids.ms().len() == k, holds(h, n, n - node_ids.ms().len(), node_ids.ms()),
    decreases k - node_ids.ms().len(),
//@at loop 0 start
    let ghost ms0 = node_ids.ms();
//@at before let node
    proof { lemma_holds_split(h, n, n - ms0.len(), ms0, node_id); }
//@at before loop 1
    proof { lemma_labelling_start(h, n, n - k, node_ids.ms(), labels@); }
//@loop 1
    invariant_except_break merges(h, n), h == self.hierarchy@, n == n_data == h.len() + 1, 2 <= k <= n, labels.len() == n,
        cluster_id + node_ids.ms().len() == k, labelling(h, n, n - k, node_ids.ms(), labels@, cluster_id as int),
    ensures cut(h, n, k as int, labels@),
    decreases node_ids.ms().len(),
//@at loop 1 start
    let ghost (ms1, labels1) = (node_ids.ms(), labels@);
    proof { if ms1.len() == 0 { lemma_labelling_done(h, n, k as int, ms1, labels@); } reveal(labelling); }
//@at before set cluster_id
    proof { lemma_labelling_step(h, n, n - k, ms1, labels1, cluster_id as int, node_id, labels@); }
//@end

// a k above n is rejected: no call with such a k returns
//@fn HierarchicalClustering::partition as partition_reject
    requires self.hierarchy.len() < usize::MAX, k > self.hierarchy.len() + 1,
    ensures false,
//@panic reject_
//@names k n_edge n_data labels node_ids root_node_id node_id node cluster_id
//@nloops 2
//@loop 0
    invariant false,
    decreases 0int,
//@loop 1
    invariant false,
    decreases 0int,
//@end
}
} // verus!
