verus! {
//@struct Node
//@struct HierarchicalClustering

// ---- merges as recorded: points are 0..n, merge i is node n + i
/// The node that holds x after the first m merges.
pub open spec fn top(h: Seq<Node>, n: int, m: int, x: int) -> int
    decreases m
{
    if m <= 0 { x } else {
        let p = top(h, n, m - 1, x);
        if p == h[m - 1].left || p == h[m - 1].right { n + m - 1 } else { p }
    }
}
pub open spec fn is_child(h: Seq<Node>, m: int, id: int) -> bool {
    exists|j: int| 0 <= j < m && (#[trigger] h[j].left == id || h[j].right == id)
}
/// A group that exists after the first m merges.
pub open spec fn alive(h: Seq<Node>, n: int, m: int, id: int) -> bool {
    0 <= id < n + m && !is_child(h, m, id)
}
/// Every merge joins two different groups that exist at that time.
pub open spec fn merges(h: Seq<Node>, n: int) -> bool {
    &&& h.len() == n - 1
    &&& 2 * n <= usize::MAX
    &&& forall|i: int| #![trigger h[i]] 0 <= i < h.len() ==> h[i].left != h[i].right && alive(h, n, i, h[i].left as int) && alive(h, n, i, h[i].right as int)
}
pub open spec fn members(h: Seq<Node>, n: int, m: int, id: int) -> Set<int> {
    Set::range(0, n).filter(|x: int| top(h, n, m, x) == id)
}
pub proof fn lemma_top_prefix(h: Seq<Node>, g: Seq<Node>, n: int, m: int, x: int)
    requires 0 <= m <= h.len(), m <= g.len(), forall|j: int| 0 <= j < m ==> h[j] == g[j],
    ensures top(h, n, m, x) == top(g, n, m, x),
    decreases m
{
    if m > 0 { lemma_top_prefix(h, g, n, m - 1, x); }
}
pub proof fn lemma_child_prefix(h: Seq<Node>, g: Seq<Node>, m: int, id: int)
    requires 0 <= m <= h.len(), m <= g.len(), forall|j: int| 0 <= j < m ==> h[j] == g[j],
    ensures is_child(h, m, id) == is_child(g, m, id),
{
    if is_child(h, m, id) { let j = choose|j: int| 0 <= j < m && (#[trigger] h[j].left == id || h[j].right == id); assert(g[j].left == id || g[j].right == id); }
    if is_child(g, m, id) { let j = choose|j: int| 0 <= j < m && (#[trigger] g[j].left == id || g[j].right == id); assert(h[j].left == id || h[j].right == id); }
}
pub proof fn lemma_alive_step(h: Seq<Node>, n: int, m: int, id: int)
    requires merges(h, n), 1 <= m < n,
    ensures alive(h, n, m, id) <==> (id == n + m - 1 || alive(h, n, m - 1, id) && id != h[m - 1].left && id != h[m - 1].right),
{
    let q = m - 1;
    if is_child(h, m - 1, id) { let j = choose|j: int| 0 <= j < m - 1 && (#[trigger] h[j].left == id || h[j].right == id); assert(0 <= j < m); }
    if is_child(h, m, id) {
        let j = choose|j: int| 0 <= j < m && (#[trigger] h[j].left == id || h[j].right == id);
        assert(alive(h, n, j, h[j].left as int) && alive(h, n, j, h[j].right as int));
        if j < m - 1 { assert(is_child(h, m - 1, id)); }
    }
    assert(h[q].left == id ==> is_child(h, m, id));
    assert(h[q].right == id ==> is_child(h, m, id)) by { if h[q].right == id { assert(h[q].left == id || h[q].right == id); } }
}
pub proof fn lemma_top_alive(h: Seq<Node>, n: int, m: int, x: int)
    requires merges(h, n), 0 <= m < n, 0 <= x < n,
    ensures alive(h, n, m, top(h, n, m, x)),
    decreases m
{
    if m > 0 {
        lemma_top_alive(h, n, m - 1, x);
        lemma_alive_step(h, n, m, top(h, n, m, x));
    }
}
pub open spec fn alive_set(h: Seq<Node>, n: int, m: int) -> Set<int> {
    Set::range(0, n + m).filter(|id: int| alive(h, n, m, id))
}
/// Every merge leaves one group fewer.
pub proof fn lemma_alive_count(h: Seq<Node>, n: int, m: int)
    requires merges(h, n), 0 <= m < n,
    ensures alive_set(h, n, m).len() == n - m,
    decreases m
{
    if m == 0 {
        vstd::set_lib::lemma_int_range(0, n);
        assert(alive_set(h, n, 0) =~= Set::range(0, n));
    } else {
        lemma_alive_count(h, n, m - 1);
        assert forall|id: int| alive(h, n, m, id) <==> (id == n + m - 1 || alive(h, n, m - 1, id) && id != h[m - 1].left && id != h[m - 1].right) by { lemma_alive_step(h, n, m, id); }
        let (a, b) = (alive_set(h, n, m - 1), alive_set(h, n, m));
        let (l, r) = (h[m - 1].left as int, h[m - 1].right as int);
        assert(alive(h, n, m - 1, l) && alive(h, n, m - 1, r) && l != r);
        assert(a.contains(l) && a.contains(r) && !a.contains(n + m - 1));
        assert(b =~= a.remove(l).remove(r).insert(n + m - 1));
    }
}
/// After all merges one group is left, the last.
pub proof fn lemma_alive_last(h: Seq<Node>, n: int, id: int)
    requires merges(h, n), n >= 2,
    ensures alive(h, n, n - 1, id) <==> id == 2 * n - 2,
{
    lemma_alive_count(h, n, n - 1);
    lemma_alive_step(h, n, n - 1, 2 * n - 2);
    let a = alive_set(h, n, n - 1);
    assert(a.contains(2 * n - 2));
    if alive(h, n, n - 1, id) && id != 2 * n - 2 {
        assert(a.contains(id));
        let two = set![2 * n - 2, id];
        assert(two.subset_of(a));
        vstd::set_lib::lemma_len_subset(two, a);
        assert(two.len() == 2);
    }
}
} // verus!
