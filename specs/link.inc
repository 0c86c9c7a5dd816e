verus! {
// ---- colours: the connected components of a list of edges
pub open spec fn col(e: Seq<WeightedEdge>, x: int) -> int
    decreases e.len()
{
    if e.len() == 0 { x } else {
        let d = e.drop_last();
        if col(d, x) == col(d, e.last().u as int) { col(d, e.last().v as int) } else { col(d, x) }
    }
}
pub open spec fn cols(e: Seq<WeightedEdge>, n: int) -> Set<int> {
    Set::range(0, n).map(|x: int| col(e, x))
}
pub proof fn lemma_col_conn(e: Seq<WeightedEdge>, a: int, b: int)
    ensures col(e, a) == col(e, b) <==> conn(e, None, a, b),
    decreases e.len()
{
    if col(e, a) == col(e, b) { lemma_col_conn1(e, a, b); }
    if conn(e, None, a, b) {
        let p = choose|p: Seq<int>| walk(e, None, p, a, b);
        lemma_col_walk(e, p, a, b);
    }
}
pub proof fn lemma_conn_mono(d: Seq<WeightedEdge>, e: Seq<WeightedEdge>, s: Option<int>, t: Option<int>, a: int, b: int)
    requires conn(d, s, a, b), forall|i: int, x: int, y: int| 0 <= i < d.len() && #[trigger] joins(d[i], s, x, y) ==> step(e, t, x, y),
    ensures conn(e, t, a, b),
{
    let p = choose|p: Seq<int>| walk(d, s, p, a, b);
    assert forall|i: int| #![trigger p[i]] 0 <= i < p.len() - 1 implies step(e, t, p[i], p[i + 1]) by {
        assert(step(d, s, p[i], p[i + 1]));
        let k = choose|k: int| 0 <= k < d.len() && #[trigger] joins(d[k], s, p[i], p[i + 1]);
    }
    assert(walk(e, t, p, a, b));
}
pub proof fn lemma_col_conn1(e: Seq<WeightedEdge>, a: int, b: int)
    requires col(e, a) == col(e, b),
    ensures conn(e, None, a, b),
    decreases e.len()
{
    if e.len() == 0 {
        conn_refl(e, None, a);
    } else {
        let d = e.drop_last();
        let (u, v) = (e.last().u as int, e.last().v as int);
        assert forall|i: int, x: int, y: int| 0 <= i < d.len() && #[trigger] joins(d[i], None, x, y) implies step(e, None, x, y) by { assert(joins(e[i], None, x, y)); }
        assert(joins(e[e.len() - 1], None, u, v));
        assert(joins(e[e.len() - 1], None, v, u));
        let (ca, cb) = (col(d, a), col(d, b));
        let (cu, cv) = (col(d, u), col(d, v));
        if ca == cb {
            lemma_col_conn1(d, a, b);
            lemma_conn_mono(d, e, None, None, a, b);
        } else if ca == cu {
            lemma_col_conn1(d, a, u); lemma_conn_mono(d, e, None, None, a, u);
            lemma_col_conn1(d, v, b); lemma_conn_mono(d, e, None, None, v, b);
            conn_step(e, None, a, u, v);
            conn_trans(e, None, a, v, b);
        } else {
            lemma_col_conn1(d, a, v); lemma_conn_mono(d, e, None, None, a, v);
            lemma_col_conn1(d, u, b); lemma_conn_mono(d, e, None, None, u, b);
            conn_step(e, None, a, v, u);
            conn_trans(e, None, a, u, b);
        }
    }
}
pub proof fn lemma_col_edge(e: Seq<WeightedEdge>, i: int)
    requires 0 <= i < e.len(),
    ensures col(e, e[i].u as int) == col(e, e[i].v as int),
    decreases e.len()
{
    if i < e.len() - 1 {
        lemma_col_edge(e.drop_last(), i);
        assert(e.drop_last()[i] == e[i]);
    }
}
pub proof fn lemma_col_walk(e: Seq<WeightedEdge>, p: Seq<int>, a: int, b: int)
    requires walk(e, None, p, a, b),
    ensures col(e, a) == col(e, b),
    decreases p.len()
{
    if p.len() > 1 {
        let q = p.drop_last();
        assert forall|i: int| #![trigger q[i]] 0 <= i < q.len() - 1 implies step(e, None, q[i], q[i + 1]) by { assert(step(e, None, p[i], p[i + 1])); }
        let c = q[q.len() - 1];
        lemma_col_walk(e, q, a, c);
        assert(step(e, None, p[p.len() - 2], p[p.len() - 2 + 1]));
        let k = choose|k: int| 0 <= k < e.len() && #[trigger] joins(e[k], None, c, b);
        lemma_col_edge(e, k);
    }
}
/// An edge lowers the number of components by at most one, and not at all inside a component.
pub proof fn lemma_cols_step(e: Seq<WeightedEdge>, n: int)
    requires e.len() > 0, 0 <= e.last().u < n, 0 <= e.last().v < n,
    ensures cols(e, n).len() >= cols(e.drop_last(), n).len() - 1,
        col(e.drop_last(), e.last().u as int) == col(e.drop_last(), e.last().v as int) ==> cols(e, n).len() >= cols(e.drop_last(), n).len(),
{
    let d = e.drop_last();
    let (a, b) = (cols(d, n), cols(e, n));
    let (u, v) = (e.last().u as int, e.last().v as int);
    let cu = col(d, u);
    let r = Set::range(0, n);
    assert forall|c: int| a.contains(c) && (c != cu || cu == col(d, v)) implies b.contains(c) by {
        let x = choose|x: int| r.contains(x) && #[trigger] col(d, x) == c;
        assert(col(e, x) == c);
    }
    assert(a.remove(cu).subset_of(b));
    vstd::set_lib::lemma_len_subset(a.remove(cu), b);
    if cu == col(d, v) {
        assert(a.subset_of(b));
        vstd::set_lib::lemma_len_subset(a, b);
    }
}
/// e has at least n - |e| components, one more if edge j lies inside a component of those before it.
pub proof fn lemma_cols_count(e: Seq<WeightedEdge>, n: int, j: int)
    requires forall|i: int| #![trigger e[i]] 0 <= i < e.len() ==> e[i].u < n && e[i].v < n, n >= 0,
        0 <= j < e.len() ==> col(e.take(j), e[j].u as int) == col(e.take(j), e[j].v as int),
    ensures cols(e, n).len() >= n - e.len() + if 0 <= j < e.len() { 1int } else { 0 },
    decreases e.len()
{
    if e.len() == 0 {
        vstd::set_lib::lemma_int_range(0, n);
        let r = Set::range(0, n);
        assert(cols(e, n) =~= r) by {
            assert forall|c: int| r.contains(c) implies cols(e, n).contains(c) by { assert(col(e, c) == c); }
            assert forall|c: int| cols(e, n).contains(c) implies r.contains(c) by { let x = choose|x: int| r.contains(x) && #[trigger] col(e, x) == c; }
        }
    } else {
        let d = e.drop_last();
        assert forall|i: int| #![trigger d[i]] 0 <= i < d.len() implies d[i].u < n && d[i].v < n by { assert(d[i] == e[i]); }
        if 0 <= j < d.len() { assert(d.take(j) =~= e.take(j)); assert(d[j] == e[j]); }
        if j == d.len() { assert(e.take(j) =~= d); }
        lemma_cols_count(d, n, j);
        lemma_cols_step(e, n);
    }
}
/// n - 1 edges that connect n vertices have no cycle, in any order.
pub proof fn lemma_no_cycle(e: Seq<WeightedEdge>, n: int, j: int)
    requires forall|i: int| #![trigger e[i]] 0 <= i < e.len() ==> e[i].u < n && e[i].v < n, n >= 1,
        e.len() == n - 1, forall|a: int, b: int| 0 <= a < n && 0 <= b < n ==> #[trigger] conn(e, None, a, b),
        0 <= j < e.len(),
    ensures col(e.take(j), e[j].u as int) != col(e.take(j), e[j].v as int),
{
    if col(e.take(j), e[j].u as int) == col(e.take(j), e[j].v as int) {
        lemma_cols_count(e, n, j);
        let s = cols(e, n);
        let c = col(e, 0);
        let r = Set::range(0, n);
        assert forall|d: int| s.contains(d) implies d == c by {
            let x = choose|x: int| r.contains(x) && #[trigger] col(e, x) == d;
            assert(conn(e, None, x, 0));
            lemma_col_conn(e, x, 0);
        }
        assert(s.subset_of(set![c]));
        vstd::set_lib::lemma_len_subset(s, set![c]);
        assert(set![c].len() == 1);
    }
}

// ---- single linkage
/// a and b are linked by a chain of points with pairwise weights of at most t.
pub open spec fn chain<WF: Fn(usize, usize) -> F>(f: WF, n: int, t: int, p: Seq<int>, a: int, b: int) -> bool {
    &&& p.len() >= 1 && p[0] == a && p[p.len() - 1] == b
    &&& forall|i: int| #![trigger p[i]] 0 <= i < p.len() ==> 0 <= p[i] < n
    &&& forall|i: int| #![trigger p[i]] 0 <= i < p.len() - 1 ==> p[i] == p[i + 1] || rank(wt(f, p[i], p[i + 1])) <= t
}
pub open spec fn linked<WF: Fn(usize, usize) -> F>(f: WF, n: int, t: int, a: int, b: int) -> bool {
    exists|p: Seq<int>| chain(f, n, t, p, a, b)
}
/// The first m merges are those of weight at most t.
pub open spec fn upto(h: Seq<Node>, t: int, m: int) -> bool {
    &&& 0 <= m <= h.len()
    &&& forall|i: int| #![trigger h[i]] 0 <= i < h.len() ==> (rank(h[i].weight) <= t <==> i < m)
}
pub open spec fn single_linkage<WF: Fn(usize, usize) -> F>(h: Seq<Node>, n: int, f: WF) -> bool {
    &&& merges(h, n)
    &&& forall|i: int| #![trigger h[i]] 0 <= i < h.len() ==> !nan(h[i].weight) && h[i].size == members(h, n, i + 1, n + i).len()
    &&& forall|i: int, j: int| #![trigger h[i], h[j]] 0 <= i < j < h.len() ==> rank(h[i].weight) <= rank(h[j].weight)
    &&& forall|t: int, m: int, a: int, b: int| #![trigger upto(h, t, m), linked(f, n, t, a, b)] upto(h, t, m) && 0 <= a < n && 0 <= b < n ==>
            (top(h, n, m, a) == top(h, n, m, b) <==> linked(f, n, t, a, b))
}
/// There is such an m for every t, so the clause above is about every t.
pub proof fn lemma_upto<WF: Fn(usize, usize) -> F>(h: Seq<Node>, n: int, f: WF, t: int) -> (m: int)
    requires single_linkage(h, n, f),
    ensures upto(h, t, m),
{
    let m = lemma_upto_rec(h, t, h.len() as int);
    m
}
pub proof fn lemma_upto_rec(h: Seq<Node>, t: int, k: int) -> (m: int)
    requires 0 <= k <= h.len(), forall|i: int, j: int| #![trigger h[i], h[j]] 0 <= i < j < h.len() ==> rank(h[i].weight) <= rank(h[j].weight),
        forall|i: int| #![trigger h[i]] k <= i < h.len() ==> rank(h[i].weight) > t,
    ensures upto(h, t, m),
    decreases k
{
    if k == 0 { 0 } else if rank(h[k - 1].weight) <= t { k } else { lemma_upto_rec(h, t, k - 1) }
}
pub proof fn lemma_linked<WF: Fn(usize, usize) -> F>(e: Seq<WeightedEdge>, es: Seq<WeightedEdge>, n: int, f: WF, t: int, m: int, a: int, b: int)
    requires spans(e, n, f), minimal(e, n, f), weights_ok(f, n), e.to_multiset() == es.to_multiset(), 0 <= a < n, 0 <= b < n, 0 <= m <= es.len(),
        forall|i: int| #![trigger es[i]] 0 <= i < es.len() ==> (rank(es[i].weight) <= t <==> i < m),
    ensures conn(es.take(m), None, a, b) <==> linked(f, n, t, a, b),
{
    lemma_same_elements(e, es);
    let d = es.take(m);
    if conn(d, None, a, b) {
        assert forall|k: int, x: int, y: int| 0 <= k < d.len() && #[trigger] joins(d[k], None, x, y) implies 0 <= x < n && 0 <= y < n && rank(wt(f, x, y)) <= t by {
            assert(d[k] == es[k]);
            assert(e.contains(es[k]));
            let j = choose|j: int| 0 <= j < e.len() && e[j] == es[k];
            lemma_edge_weight(e, n, f, j, x, y);
        }
        lemma_conn_chain(d, n, f, t, a, b);
    }
    if linked(f, n, t, a, b) {
        let p = choose|p: Seq<int>| chain(f, n, t, p, a, b);
        lemma_chain_conn(e, n, f, t, p, a, b);
        assert forall|i: int, x: int, y: int| 0 <= i < e.len() && #[trigger] joins(e[i], Some(t), x, y) implies step(d, None, x, y) by {
            assert(es.contains(e[i]));
            let k = choose|k: int| 0 <= k < es.len() && es[k] == e[i];
            assert(k < m);
            assert(d[k] == es[k]);
            assert(joins(d[k], None, x, y));
        }
        lemma_conn_mono(e, d, Some(t), None, a, b);
    }
}
pub proof fn lemma_edge_weight<WF: Fn(usize, usize) -> F>(e: Seq<WeightedEdge>, n: int, f: WF, j: int, x: int, y: int)
    requires spans(e, n, f), weights_ok(f, n), 0 <= j < e.len(), joins(e[j], None, x, y),
    ensures 0 <= x < n, 0 <= y < n, e[j].weight == wt(f, x, y),
{
    assert(wt(f, e[j].u as int, e[j].v as int) == wt(f, e[j].v as int, e[j].u as int));
}
pub proof fn lemma_conn_chain<WF: Fn(usize, usize) -> F>(d: Seq<WeightedEdge>, n: int, f: WF, t: int, a: int, b: int)
    requires conn(d, None, a, b), 0 <= a < n,
        forall|k: int, x: int, y: int| 0 <= k < d.len() && #[trigger] joins(d[k], None, x, y) ==> 0 <= x < n && 0 <= y < n && rank(wt(f, x, y)) <= t,
    ensures linked(f, n, t, a, b),
{
    let p = choose|p: Seq<int>| walk(d, None, p, a, b);
    assert forall|i: int| #![trigger p[i]] 0 <= i < p.len() - 1 implies 0 <= p[i] < n && 0 <= p[i + 1] < n && rank(wt(f, p[i], p[i + 1])) <= t by {
        assert(step(d, None, p[i], p[i + 1]));
        let k = choose|k: int| 0 <= k < d.len() && #[trigger] joins(d[k], None, p[i], p[i + 1]);
    }
    assert forall|i: int| #![trigger p[i]] 0 <= i < p.len() implies 0 <= p[i] < n by {
        if i > 0 { assert(0 <= p[i - 1 + 1] < n) by { assert(0 <= p[i - 1] < n); } }
    }
    assert(chain(f, n, t, p, a, b));
}
pub proof fn lemma_chain_conn<WF: Fn(usize, usize) -> F>(e: Seq<WeightedEdge>, n: int, f: WF, t: int, p: Seq<int>, a: int, b: int)
    requires spans(e, n, f), minimal(e, n, f), chain(f, n, t, p, a, b),
    ensures conn(e, Some(t), a, b),
    decreases p.len()
{
    if p.len() == 1 {
        conn_refl(e, Some(t), a);
    } else {
        let q = p.drop_last();
        let c = q[q.len() - 1];
        assert forall|i: int| #![trigger q[i]] 0 <= i < q.len() implies 0 <= q[i] < n by { assert(0 <= p[i] < n); }
        assert forall|i: int| #![trigger q[i]] 0 <= i < q.len() - 1 implies q[i] == q[i + 1] || rank(wt(f, q[i], q[i + 1])) <= t by { assert(p[i] == p[i + 1] || rank(wt(f, p[i], p[i + 1])) <= t); }
        lemma_chain_conn(e, n, f, t, q, a, c);
        assert(p[p.len() - 2] == p[p.len() - 2 + 1] || rank(wt(f, p[p.len() - 2], p[p.len() - 2 + 1])) <= t);
        assert(0 <= p[p.len() - 1] < n && 0 <= p[p.len() - 2] < n);
        if c != b {
            let r = rank(wt(f, c, b));
            assert(conn(e, Some(r), c, b));
            assert forall|i: int, x: int, y: int| 0 <= i < e.len() && #[trigger] joins(e[i], Some(r), x, y) implies step(e, Some(t), x, y) by { assert(joins(e[i], Some(t), x, y)); }
            lemma_conn_mono(e, e, Some(r), Some(t), c, b);
            conn_trans(e, Some(t), a, c, b);
        }
    }
}
/// What the loop knows after i merges.
#[verifier::opaque]
pub open spec fn linking(h: Seq<Node>, es: Seq<WeightedEdge>, uf: UnionFind, n: int, m: int) -> bool {
    &&& h.len() == m
    &&& forall|i: int| #![trigger h[i]] 0 <= i < m ==> h[i].left != h[i].right && alive(h, n, i, h[i].left as int) && alive(h, n, i, h[i].right as int) && h[i].weight == es[i].weight && h[i].size == members(h, n, i + 1, n + i).len()
    &&& forall|x: int| #![trigger uf.root(x)] 0 <= x < n ==> uf.root(x) == top(h, n, m, x)
    &&& forall|id: int| #![trigger alive(h, n, m, id)] 0 <= id < n + m ==> (uf.parent@[id] == id <==> alive(h, n, m, id))
    &&& forall|a: int, b: int| #![trigger uf.root(a), uf.root(b)] 0 <= a < n && 0 <= b < n ==> (uf.root(a) == uf.root(b) <==> col(es.take(m), a) == col(es.take(m), b))
}
pub proof fn lemma_linking_start(h: Seq<Node>, es: Seq<WeightedEdge>, uf: UnionFind, n: int)
    requires h.len() == 0, uf.wf(), uf.n() == n, uf.next_label == n, forall|x: int| #![trigger uf.root(x)] 0 <= x < n ==> uf.root(x) == x,
    ensures linking(h, es, uf, n, 0),
{
    reveal(linking);
    assert(es.take(0).len() == 0);
    assert forall|id: int| #![trigger alive(h, n, 0, id)] 0 <= id < n implies (uf.parent@[id] == id <==> alive(h, n, 0, id)) by {
        assert(uf.root(id) == id);
        lemma_rt(uf.parent@, id);
    }
}
pub proof fn lemma_linking_step(h: Seq<Node>, es: Seq<WeightedEdge>, uf: UnionFind, n: int, m: int, uf2: UnionFind, nd: Node)
    requires linking(h, es, uf, n, m), uf.wf(), uf2.wf(), uf.n() == n, uf2.n() == n, uf.next_label == n + m, uf2.next_label == n + m + 1, 0 <= m < es.len(), es.len() == n - 1,
        es[m].u < n, es[m].v < n, nd.left == uf.root(es[m].u as int), nd.right == uf.root(es[m].v as int), nd.left != nd.right, nd.weight == es[m].weight,
        nd.size == uf2.weight(n + m),
        forall|z: int| #![trigger uf2.root(z)] 0 <= z < 2 * n ==> uf2.root(z) == if uf.root(z) == nd.left || uf.root(z) == nd.right { n + m } else { uf.root(z) },
    ensures linking(h.push(nd), es, uf2, n, m + 1),
{
    reveal(linking);
    let g = h.push(nd);
    let (u, v) = (es[m].u as int, es[m].v as int);
    assert forall|i: int, x: int| 0 <= i <= m implies top(g, n, i, x) == top(h, n, i, x) by { lemma_top_prefix(g, h, n, i, x); }
    assert forall|i: int, x: int| 0 <= i <= m implies is_child(g, i, x) == is_child(h, i, x) by { lemma_child_prefix(g, h, i, x); }
    assert forall|x: int| 0 <= x < n implies 0 <= uf.root(x) < n + m && uf.parent@[uf.root(x)] == uf.root(x) by {
        lemma_rt(uf.parent@, x);
        lemma_rt_bound(uf.parent@, n + m, x);
    }
    let (l, r) = (nd.left as int, nd.right as int);
    assert(alive(h, n, m, l) && alive(h, n, m, r));
    assert forall|x: int| #![trigger uf2.root(x)] 0 <= x < n implies uf2.root(x) == top(g, n, m + 1, x) by {
        assert(uf.root(x) == top(h, n, m, x));
        assert(g[m] == nd);
    }
    let ds = es.take(m + 1);
    assert(ds.drop_last() =~= es.take(m));
    assert forall|a: int, b: int| #![trigger uf2.root(a), uf2.root(b)] 0 <= a < n && 0 <= b < n implies (uf2.root(a) == uf2.root(b) <==> col(ds, a) == col(ds, b)) by {
        assert(uf.root(a) == uf.root(b) <==> col(es.take(m), a) == col(es.take(m), b));
        assert(uf.root(a) == uf.root(u) <==> col(es.take(m), a) == col(es.take(m), u));
        assert(uf.root(b) == uf.root(u) <==> col(es.take(m), b) == col(es.take(m), u));
        assert(uf.root(a) == uf.root(v) <==> col(es.take(m), a) == col(es.take(m), v));
        assert(uf.root(b) == uf.root(v) <==> col(es.take(m), b) == col(es.take(m), v));
    }
    assert(members(g, n, m + 1, n + m) =~= group(uf2.parent@, n, n + m)) by {
        assert forall|x: int| 0 <= x < n implies (top(g, n, m + 1, x) == n + m <==> rt(uf2.parent@, x) == n + m) by { assert(uf2.root(x) == top(g, n, m + 1, x)); }
    }
    assert forall|i: int| #![trigger g[i]] 0 <= i < m + 1 implies g[i].left != g[i].right && alive(g, n, i, g[i].left as int) && alive(g, n, i, g[i].right as int) && g[i].weight == es[i].weight && g[i].size == members(g, n, i + 1, n + i).len() by {
        if i < m {
            assert(g[i] == h[i]);
            assert(alive(h, n, i, h[i].left as int));
            assert(members(g, n, i + 1, n + i) =~= members(h, n, i + 1, n + i));
        }
    }
    assert forall|id: int| #![trigger alive(g, n, m + 1, id)] 0 <= id < n + m + 1 implies (uf2.parent@[id] == id <==> alive(g, n, m + 1, id)) by {
        lemma_rt(uf2.parent@, id);
        lemma_rt(uf.parent@, id);
        assert(uf2.root(id) == if uf.root(id) == l || uf.root(id) == r { n + m } else { uf.root(id) });
        if is_child(g, m + 1, id) {
            let j = choose|j: int| 0 <= j < m + 1 && (#[trigger] g[j].left == id || g[j].right == id);
            assert(alive(g, n, j, g[j].left as int) && alive(g, n, j, g[j].right as int));
            if j < m { assert(h[j] == g[j]); assert(h[j].left == id || h[j].right == id); assert(is_child(h, m, id)); }
        }
        if is_child(h, m, id) {
            let j = choose|j: int| 0 <= j < m && (#[trigger] h[j].left == id || h[j].right == id);
            assert(g[j].left == id || g[j].right == id);
        }
        assert(g[m].left == l && g[m].right == r);
        if id < n + m {
            assert(uf.parent@[id] == id <==> alive(h, n, m, id));
        } else {
            assert(uf.parent@[id] == id);
        }
    }
}
pub proof fn lemma_linking_done<WF: Fn(usize, usize) -> F>(h: Seq<Node>, e: Seq<WeightedEdge>, es: Seq<WeightedEdge>, uf: UnionFind, n: int, f: WF, m0: int)
    requires linking(h, es, uf, n, m0), m0 == es.len(), n >= 1, 2 * n <= usize::MAX, weights_ok(f, n), spans(e, n, f), minimal(e, n, f), e.to_multiset() == es.to_multiset(),
        forall|i: int, j: int| #![trigger es[i], es[j]] 0 <= i < j < es.len() ==> rank(es[i].weight) <= rank(es[j].weight),
        forall|i: int| 0 <= i < m0 ==> #[trigger] made(h, es, n, i),
    ensures single_linkage(h, n, f),
{
    reveal(linking);
    lemma_same_elements(e, es);
    assert(merges(h, n));
    assert forall|t: int, m: int, a: int, b: int| #![trigger upto(h, t, m), linked(f, n, t, a, b)] upto(h, t, m) && 0 <= a < n && 0 <= b < n implies
            (top(h, n, m, a) == top(h, n, m, b) <==> linked(f, n, t, a, b)) by {
        assert forall|i: int| #![trigger es[i]] 0 <= i < es.len() implies (rank(es[i].weight) <= t <==> i < m) by { assert(h[i].weight == es[i].weight); }
        lemma_linked(e, es, n, f, t, m, a, b);
        lemma_col_conn(es.take(m), a, b);
        lemma_top_col(h, es, n, m, a, b);
    }
    assert forall|i: int| #![trigger h[i]] 0 <= i < h.len() implies !nan(h[i].weight) by { assert(e.contains(es[i])); }
}
/// Merge i joins the groups of the ends of edge i.
pub open spec fn made(h: Seq<Node>, es: Seq<WeightedEdge>, n: int, i: int) -> bool {
    es[i].u < n && es[i].v < n && h[i].left == top(h, n, i, es[i].u as int) && h[i].right == top(h, n, i, es[i].v as int)
}
/// The groups after m merges are the components of the first m edges.
pub proof fn lemma_top_col(h: Seq<Node>, es: Seq<WeightedEdge>, n: int, m: int, a: int, b: int)
    requires merges(h, n), 0 <= m <= h.len(), 0 <= a < n, 0 <= b < n, es.len() == h.len(),
        forall|i: int| 0 <= i < h.len() ==> #[trigger] made(h, es, n, i),
    ensures top(h, n, m, a) == top(h, n, m, b) <==> col(es.take(m), a) == col(es.take(m), b),
    decreases m
{
    if m > 0 {
        let d = es.take(m);
        assert(d.drop_last() =~= es.take(m - 1));
        let (u, v) = (es[m - 1].u as int, es[m - 1].v as int);
        assert(made(h, es, n, m - 1));
        assert(h[m - 1].left == top(h, n, m - 1, u) && h[m - 1].right == top(h, n, m - 1, v));
        lemma_top_col(h, es, n, m - 1, a, b);
        lemma_top_col(h, es, n, m - 1, a, u);
        lemma_top_col(h, es, n, m - 1, a, v);
        lemma_top_col(h, es, n, m - 1, b, u);
        lemma_top_col(h, es, n, m - 1, b, v);
        lemma_top_alive(h, n, m - 1, a);
        lemma_top_alive(h, n, m - 1, b);
    } else {
        assert(es.take(0).len() == 0);
    }
}

impl HierarchicalClustering {
//@fn HierarchicalClustering::fit
    requires weights_ok(weight_fn, dataset.len() as int), 2 * dataset.len() <= usize::MAX,
    ensures dataset.len() == 0 ==> r.hierarchy.len() == 0,
        dataset.len() > 0 ==> single_linkage(r.hierarchy@, dataset.len() as int, weight_fn),
//@names dataset weight_fn spanning_tree edges edge1 edge2 n_edge n_node union_find nodes edge root_u root_v size
//@nloops 1
//@closure 0
    -> (o: Ordering) ensures !nan(edge1.weight) && !nan(edge2.weight) ==> o == iord(rank(edge1.weight), rank(edge2.weight))
//@at before call sort_unstable_by
    let ghost tree = edges@;
    proof {
        assert forall|i: int| #![trigger edges@[i]] 0 <= i < edges.len() implies !nan(edges@[i].weight) by {}
    }
//@at after call sort_unstable_by
    proof {
        lemma_same_elements(tree, edges@);
        assert forall|i: int| #![trigger edges@[i]] 0 <= i < edges.len() implies !nan(edges@[i].weight) && edges@[i].u < dataset.len() && edges@[i].v < dataset.len() by { assert(tree.contains(edges@[i])); }
        assert forall|a: int, b: int| 0 <= a < dataset.len() && 0 <= b < dataset.len() implies #[trigger] conn(edges@, None, a, b) by {
            assert(conn(tree, None, a, b));
            assert forall|i: int, x: int, y: int| 0 <= i < tree.len() && #[trigger] joins(tree[i], None, x, y) implies step(edges@, None, x, y) by {
                assert(edges@.contains(tree[i]));
                let k = choose|k: int| 0 <= k < edges.len() && edges@[k] == tree[i];
                assert(joins(edges@[k], None, x, y));
            }
            lemma_conn_mono(tree, edges@, None, None, a, b);
        }
        assert forall|i: int, j: int| #![trigger edges@[i], edges@[j]] 0 <= i < j < edges.len() implies rank(edges@[i].weight) <= rank(edges@[j].weight) by {}
    }
//@at before loop 0
    proof { lemma_linking_start(nodes@, edges@, union_find, n_node as int); }
//@loop 0
    invariant it0_n <= it0_end == edges.len() == n_node - 1, n_node == dataset.len(), union_find.wf(), union_find.n() == n_node, union_find.next_label == n_node + it0_n,
        forall|i: int| #![trigger edges@[i]] 0 <= i < edges.len() ==> !nan(edges@[i].weight) && edges@[i].u < dataset.len() && edges@[i].v < dataset.len(),
        forall|a: int, b: int| 0 <= a < dataset.len() && 0 <= b < dataset.len() ==> #[trigger] conn(edges@, None, a, b),
        linking(nodes@, edges@, union_find, n_node as int, it0_n as int),
        forall|i: int| 0 <= i < it0_n ==> #[trigger] made(nodes@, edges@, n_node as int, i),
    decreases it0_end - it0_n,
//@at loop 0 start
    let ghost uf0 = union_find;
    let ghost acc00 = nodes@;
    proof {
        lemma_no_cycle(edges@, n_node as int, it0_n as int);
        reveal(linking);
        let (u, v) = (edges@[it0_n as int].u as int, edges@[it0_n as int].v as int);
        assert(union_find.root(u) == union_find.root(v) <==> col(edges@.take(it0_n as int), u) == col(edges@.take(it0_n as int), v));
        assert(union_find.root(u) == top(nodes@, n_node as int, it0_n as int, u));
        assert(union_find.root(v) == top(nodes@, n_node as int, it0_n as int, v));
    }
//@at before call union
    proof {
        assert(uf0.root(uf0.root(edges@[it0_i as int].u as int)) == root_u) by { lemma_rt(uf0.parent@, edges@[it0_i as int].u as int); }
        lemma_rt(union_find.parent@, root_u as int);
    }
//@at loop 0 end
    proof {
        let m = it0_i as int;
        assert(nodes@ =~= acc00.push(nodes@[m]));
        lemma_linking_step(acc00, edges@, uf0, n_node as int, m, union_find, nodes@[m]);
        assert forall|i: int| 0 <= i < it0_n implies #[trigger] made(nodes@, edges@, n_node as int, i) by {
            lemma_top_prefix(nodes@, acc00, n_node as int, i, edges@[i].u as int);
            lemma_top_prefix(nodes@, acc00, n_node as int, i, edges@[i].v as int);
            if i < m { assert(made(acc00, edges@, n_node as int, i)); assert(nodes@[i] == acc00[i]); }
        }
    }
//@at after loop 0
    proof { lemma_linking_done(nodes@, tree, edges@, union_find, n_node as int, weight_fn, it0_n as int); }
//@end
}
} // verus!
