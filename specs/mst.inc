verus! {
broadcast use vstd::std_specs::hash::group_hash_axioms;
//@struct MinimumSpanningTree
#[verifier::external_body]
pub struct V { x: u8 }
pub type T = V;

// ---- graphs given by edges; t bounds the weights that may be used
pub open spec fn joins(e: WeightedEdge, t: Option<int>, a: int, b: int) -> bool {
    (t is None || rank(e.weight) <= t->0) && ((e.u == a && e.v == b) || (e.u == b && e.v == a))
}
pub open spec fn step(e: Seq<WeightedEdge>, t: Option<int>, a: int, b: int) -> bool {
    exists|i: int| 0 <= i < e.len() && #[trigger] joins(e[i], t, a, b)
}
/// p is a walk from a to b.
pub open spec fn walk(e: Seq<WeightedEdge>, t: Option<int>, p: Seq<int>, a: int, b: int) -> bool {
    &&& p.len() >= 1 && p[0] == a && p[p.len() - 1] == b
    &&& forall|i: int| #![trigger p[i]] 0 <= i < p.len() - 1 ==> step(e, t, p[i], p[i + 1])
}
/// a and b are joined by edges that weigh at most t (no bound: None).
pub open spec fn conn(e: Seq<WeightedEdge>, t: Option<int>, a: int, b: int) -> bool {
    exists|p: Seq<int>| walk(e, t, p, a, b)
}
pub proof fn conn_refl(e: Seq<WeightedEdge>, t: Option<int>, a: int)
    ensures conn(e, t, a, a),
{ assert(walk(e, t, seq![a], a, a)); }
pub proof fn conn_step(e: Seq<WeightedEdge>, t: Option<int>, a: int, b: int, c: int)
    requires conn(e, t, a, b), step(e, t, b, c),
    ensures conn(e, t, a, c),
{
    let p = choose|p: Seq<int>| walk(e, t, p, a, b);
    let q = p.push(c);
    assert forall|i: int| #![trigger q[i]] 0 <= i < q.len() - 1 implies step(e, t, q[i], q[i + 1]) by {
        if i < p.len() - 1 { assert(step(e, t, p[i], p[i + 1])); }
    }
    assert(walk(e, t, q, a, c));
}
pub proof fn walk_trans(e: Seq<WeightedEdge>, t: Option<int>, p: Seq<int>, a: int, b: int, c: int)
    requires conn(e, t, a, b), walk(e, t, p, b, c),
    ensures conn(e, t, a, c),
    decreases p.len()
{
    if p.len() > 1 {
        let q = p.drop_last();
        assert forall|i: int| #![trigger q[i]] 0 <= i < q.len() - 1 implies step(e, t, q[i], q[i + 1]) by { assert(step(e, t, p[i], p[i + 1])); }
        let d = q[q.len() - 1];
        walk_trans(e, t, q, a, b, d);
        assert(step(e, t, p[p.len() - 2], p[p.len() - 2 + 1]));
        conn_step(e, t, a, d, c);
    }
}
pub proof fn conn_trans(e: Seq<WeightedEdge>, t: Option<int>, a: int, b: int, c: int)
    requires conn(e, t, a, b), conn(e, t, b, c),
    ensures conn(e, t, a, c),
{
    let p = choose|p: Seq<int>| walk(e, t, p, b, c);
    walk_trans(e, t, p, a, b, c);
}
pub proof fn step_sym(e: Seq<WeightedEdge>, t: Option<int>, a: int, b: int)
    ensures step(e, t, a, b) == step(e, t, b, a),
{
    if step(e, t, a, b) { let i = choose|i: int| 0 <= i < e.len() && #[trigger] joins(e[i], t, a, b); assert(joins(e[i], t, b, a)); }
    if step(e, t, b, a) { let i = choose|i: int| 0 <= i < e.len() && #[trigger] joins(e[i], t, b, a); assert(joins(e[i], t, a, b)); }
}
pub proof fn conn_sym(e: Seq<WeightedEdge>, t: Option<int>, a: int, b: int)
    requires conn(e, t, a, b),
    ensures conn(e, t, b, a),
{
    let p = choose|p: Seq<int>| walk(e, t, p, a, b);
    let q = Seq::new(p.len(), |i: int| p[p.len() - 1 - i]);
    assert forall|i: int| #![trigger q[i]] 0 <= i < q.len() - 1 implies step(e, t, q[i], q[i + 1]) by {
        let j = p.len() - 2 - i;
        assert(step(e, t, p[j], p[j + 1]));
        step_sym(e, t, p[j], p[j + 1]);
    }
    assert(walk(e, t, q, b, a));
}
/// A vertex that ends no edge is joined to itself only.
pub proof fn lemma_isolated(e: Seq<WeightedEdge>, t: Option<int>, a: int, b: int)
    requires forall|i: int| 0 <= i < e.len() ==> (#[trigger] e[i]).u != b && e[i].v != b, conn(e, t, a, b),
    ensures a == b,
{
    let p = choose|p: Seq<int>| walk(e, t, p, a, b);
    if p.len() > 1 {
        let j = p.len() - 2;
        assert(step(e, t, p[j], p[j + 1]));
        let i = choose|i: int| 0 <= i < e.len() && #[trigger] joins(e[i], t, p[j], p[j + 1]);
        assert(false);
    }
}

/// The weight the function gives for (a, b).
pub open spec fn wt<WF: Fn(usize, usize) -> F>(f: WF, a: int, b: int) -> F {
    choose|r: F| #![trigger f.ensures((a as usize, b as usize), r)] f.ensures((a as usize, b as usize), r)
}
/// A symmetric weight function without NaN, defined on 0..n.
pub open spec fn weights_ok<WF: Fn(usize, usize) -> F>(f: WF, n: int) -> bool {
    &&& forall|a: usize, b: usize| a < n && b < n ==> #[trigger] f.requires((a, b))
    &&& forall|a: usize, b: usize, r: F| #![trigger f.ensures((a, b), r)] a < n && b < n && f.ensures((a, b), r) ==> r == wt(f, a as int, b as int) && !nan(r)
    &&& forall|a: int, b: int| #![trigger wt(f, a, b)] 0 <= a < n && 0 <= b < n ==> wt(f, a, b) == wt(f, b, a) && !nan(wt(f, a, b))
}
pub open spec fn wsum(e: Seq<WeightedEdge>) -> F
    decreases e.len()
{
    if e.len() == 0 { fzero() } else { fadd(wsum(e.drop_last()), e.last().weight) }
}
/// n - 1 edges with their weights that connect 0..n without a cycle.
pub open spec fn spans<WF: Fn(usize, usize) -> F>(e: Seq<WeightedEdge>, n: int, f: WF) -> bool {
    &&& e.len() == if n == 0 { 0 } else { n - 1 }
    &&& forall|i: int| #![trigger e[i]] 0 <= i < e.len() ==> e[i].u < n && e[i].v < n && e[i].u != e[i].v && !nan(e[i].weight) && e[i].weight == wt(f, e[i].u as int, e[i].v as int)
    &&& forall|a: int, b: int| 0 <= a < n && 0 <= b < n ==> #[trigger] conn(e, None, a, b)
    &&& forall|i: int| #![trigger e[i]] 0 <= i < e.len() ==> !conn(e.take(i), None, e[i].u as int, e[i].v as int)
}
/// Any two vertices are joined by edges no heavier than the direct edge.
pub open spec fn minimal<WF: Fn(usize, usize) -> F>(e: Seq<WeightedEdge>, n: int, f: WF) -> bool {
    forall|a: int, b: int| #![trigger wt(f, a, b)] 0 <= a < n && 0 <= b < n && a != b ==> conn(e, Some(rank(wt(f, a, b))), a, b)
}

// ---- Prim's algorithm: vertex att(e, r, i) was attached i-th
pub open spec fn att(e: Seq<WeightedEdge>, r: int, i: int) -> int {
    if i <= 0 { r } else { e[i - 1].v as int }
}
#[verifier::opaque]
pub open spec fn is_att(e: Seq<WeightedEdge>, r: int, m: int, y: int) -> bool {
    exists|i: int| 0 <= i <= m && #[trigger] att(e, r, i) == y
}
#[verifier::opaque]
pub open spec fn prim<WF: Fn(usize, usize) -> F>(e: Seq<WeightedEdge>, r: int, n: int, f: WF) -> bool {
    &&& 0 <= r < n
    &&& forall|i: int| #![trigger e[i]] 0 <= i < e.len() ==> e[i].u < n && e[i].v < n && e[i].weight == wt(f, e[i].u as int, e[i].v as int) && !nan(e[i].weight)
        && is_att(e, r, i, e[i].u as int) && !is_att(e, r, i, e[i].v as int)
    // when edge i was chosen, it was a lightest edge that leaves the attached vertices
    &&& forall|i: int, l: int, y: int| 0 <= l <= i < e.len() && 0 <= y < n && !is_att(e, r, i, y) ==> #[trigger] lighter(e, r, f, i, l, y)
}
pub open spec fn lighter<WF: Fn(usize, usize) -> F>(e: Seq<WeightedEdge>, r: int, f: WF, i: int, l: int, y: int) -> bool {
    rank(e[i].weight) <= rank(wt(f, att(e, r, l), y))
}
/// Nothing attached but the first vertex.
pub proof fn lemma_prim_start<WF: Fn(usize, usize) -> F>(e: Seq<WeightedEdge>, s: Set<usize>, r: usize, n: int, f: WF)
    requires e.len() == 0, r < n, forall|y: usize| #[trigger] s.contains(y) <==> y == r,
    ensures prim(e, r as int, n, f), wsum(e) == fzero(), forall|y: usize| #[trigger] s.contains(y) <==> is_att(e, r as int, 0, y as int),
{
    reveal(prim);
    reveal(is_att);
    assert(att(e, r as int, 0) == r);
}
pub proof fn lemma_att_mono(e: Seq<WeightedEdge>, r: int, m: int, m2: int, y: int)
    requires is_att(e, r, m, y), m <= m2,
    ensures is_att(e, r, m2, y),
{
    reveal(is_att);
    let i = choose|i: int| 0 <= i <= m && #[trigger] att(e, r, i) == y;
    assert(att(e, r, i) == y);
}
pub proof fn lemma_att_distinct<WF: Fn(usize, usize) -> F>(e: Seq<WeightedEdge>, r: int, n: int, f: WF, i: int, j: int)
    requires prim(e, r, n, f), 0 <= i < j <= e.len(),
    ensures att(e, r, i) != att(e, r, j), !is_att(e, r, i, att(e, r, j)),
{
    reveal(prim); reveal(is_att);
    assert(!is_att(e, r, j - 1, e[j - 1].v as int));
    if is_att(e, r, i, att(e, r, j)) { lemma_att_mono(e, r, i, j - 1, att(e, r, j)); }
    if att(e, r, i) == att(e, r, j) { assert(is_att(e, r, i, att(e, r, j))); }
}
/// Vertices i < j are joined by edges no heavier than the heaviest edge added between them.
pub proof fn lemma_prim<WF: Fn(usize, usize) -> F>(e: Seq<WeightedEdge>, r: int, n: int, f: WF, i: int, j: int, t: Option<int>)
    requires prim(e, r, n, f), 0 <= i <= j <= e.len(),
        t is Some ==> forall|m: int| #![trigger e[m]] i <= m < j ==> rank(e[m].weight) <= t->0,
    ensures conn(e, t, att(e, r, i), att(e, r, j)),
    decreases j
{
    reveal(prim); reveal(is_att);
    if i == j {
        conn_refl(e, t, att(e, r, i));
    } else {
        let m = j - 1;
        assert(is_att(e, r, m, e[m].u as int));
        let l = choose|l: int| 0 <= l <= m && #[trigger] att(e, r, l) == e[m].u as int;
        if l >= i {
            lemma_prim(e, r, n, f, i, l, t);
        } else {
            assert forall|q: int| #![trigger e[q]] l <= q < i && t is Some implies rank(e[q].weight) <= t->0 by {
                lemma_att_distinct(e, r, n, f, q, j);
                assert(lighter(e, r, f, q, l, att(e, r, j)));
                assert(e[m].weight == wt(f, att(e, r, l), att(e, r, j)));
            }
            lemma_prim(e, r, n, f, l, i, t);
            conn_sym(e, t, att(e, r, l), att(e, r, i));
        }
        assert(joins(e[m], t, e[m].u as int, e[m].v as int));
        conn_step(e, t, att(e, r, i), e[m].u as int, e[m].v as int);
    }
}
pub proof fn lemma_prim_done<WF: Fn(usize, usize) -> F>(e: Seq<WeightedEdge>, r: int, n: int, f: WF)
    requires prim(e, r, n, f), weights_ok(f, n), e.len() == n - 1,
        forall|y: int| 0 <= y < n ==> #[trigger] is_att(e, r, e.len() as int, y),
    ensures spans(e, n, f), minimal(e, n, f),
{
    reveal(prim); reveal(is_att);
    let k = e.len() as int;
    assert forall|a: int, b: int| 0 <= a < n && 0 <= b < n implies #[trigger] conn(e, None, a, b) by {
        assert(is_att(e, r, k, a) && is_att(e, r, k, b));
        let i = choose|i: int| 0 <= i <= k && #[trigger] att(e, r, i) == a;
        let j = choose|j: int| 0 <= j <= k && #[trigger] att(e, r, j) == b;
        if i <= j { lemma_prim(e, r, n, f, i, j, None); } else { lemma_prim(e, r, n, f, j, i, None); conn_sym(e, None, b, a); }
    }
    assert forall|i: int| #![trigger e[i]] 0 <= i < k implies e[i].u != e[i].v && !conn(e.take(i), None, e[i].u as int, e[i].v as int) by {
        let (u, v) = (e[i].u as int, e[i].v as int);
        assert(u != v);
        assert forall|q: int| 0 <= q < i implies (#[trigger] e.take(i)[q]).u != v && e.take(i)[q].v != v by {
            assert(is_att(e, r, q, e[q].u as int));
            if e[q].u == v { lemma_att_mono(e, r, q, i, v); }
            assert(att(e, r, q + 1) == e[q].v as int);
            if e[q].v == v { assert(is_att(e, r, i, v)); }
        }
        if conn(e.take(i), None, u, v) {
            lemma_isolated(e.take(i), None, u, v);
        }
    }
    assert forall|a: int, b: int| #![trigger wt(f, a, b)] 0 <= a < n && 0 <= b < n && a != b implies conn(e, Some(rank(wt(f, a, b))), a, b) by {
        assert(is_att(e, r, k, a) && is_att(e, r, k, b));
        let i = choose|i: int| 0 <= i <= k && #[trigger] att(e, r, i) == a;
        let j = choose|j: int| 0 <= j <= k && #[trigger] att(e, r, j) == b;
        let t = Some(rank(wt(f, a, b)));
        let (p, q) = if i <= j { (i, j) } else { (j, i) };
        assert forall|m: int| #![trigger e[m]] p <= m < q implies rank(e[m].weight) <= rank(wt(f, a, b)) by {
            lemma_att_distinct(e, r, n, f, m, q);
            assert(lighter(e, r, f, m, p, att(e, r, q)));
            assert(wt(f, a, b) == wt(f, b, a));
        }
        lemma_prim(e, r, n, f, p, q, t);
        if i > j { conn_sym(e, t, b, a); }
    }
}
/// Candidates start at attached vertices; every edge from an attached vertex (but x) to a vertex outside s is
/// a candidate, and so are those from x to vertices below m.
#[verifier::opaque]
pub open spec fn cands<WF: Fn(usize, usize) -> F>(ms: Multiset<WeightedEdge>, s: Set<usize>, n: int, f: WF, x: usize, m: int) -> bool {
    &&& forall|c: WeightedEdge| #[trigger] ms.count(c) > 0 ==> s.contains(c.u) && c.u < n && c.v < n && c.weight == wt(f, c.u as int, c.v as int) && !nan(c.weight)
    &&& forall|z: usize, y: usize| s.contains(z) && y < n && !s.contains(y) && (z == x ==> y < m) ==> #[trigger] has_cand(ms, z, y, wt(f, z as int, y as int))
}
pub open spec fn has_cand(ms: Multiset<WeightedEdge>, x: usize, y: usize, w: F) -> bool {
    ms.count(WeightedEdge { u: x, v: y, weight: w }) > 0
}
pub proof fn lemma_cands_new<WF: Fn(usize, usize) -> F>(s: Set<usize>, n: int, f: WF, x: usize)
    requires forall|z: usize| s.contains(z) ==> z == x,
    ensures cands(Multiset::<WeightedEdge>::empty(), s, n, f, x, 0),
{ reveal(cands); }
pub proof fn lemma_cands_skip<WF: Fn(usize, usize) -> F>(ms: Multiset<WeightedEdge>, s: Set<usize>, n: int, f: WF, x: usize, m: int)
    requires cands(ms, s, n, f, x, m), 0 <= m < n <= usize::MAX, s.contains(m as usize),
    ensures cands(ms, s, n, f, x, m + 1),
{ reveal(cands); }
pub proof fn lemma_cands_push<WF: Fn(usize, usize) -> F>(ms: Multiset<WeightedEdge>, s: Set<usize>, n: int, f: WF, x: usize, m: int, c: WeightedEdge)
    requires cands(ms, s, n, f, x, m), 0 <= m < n <= usize::MAX, s.contains(x), x < n, weights_ok(f, n), c == (WeightedEdge { u: x, v: m as usize, weight: wt(f, x as int, m) }),
    ensures cands(ms.insert(c), s, n, f, x, m + 1),
{
    reveal(cands);
    let m2 = ms.insert(c);
    assert forall|z: usize, y: usize| s.contains(z) && y < n && !s.contains(y) && (z == x ==> y < m + 1) implies #[trigger] has_cand(m2, z, y, wt(f, z as int, y as int)) by {
        if !(z == x && y == m) { assert(has_cand(ms, z, y, wt(f, z as int, y as int))); }
    }
    assert(!nan(wt(f, x as int, m)));
}
/// A candidate whose end is attached can go.
pub proof fn lemma_cands_drop<WF: Fn(usize, usize) -> F>(ms: Multiset<WeightedEdge>, s: Set<usize>, n: int, f: WF, x: usize, m: int, c: WeightedEdge)
    requires cands(ms, s, n, f, x, m), s.contains(c.v), ms.count(c) > 0,
    ensures cands(ms.remove(c), s, n, f, x, m),
{
    reveal(cands);
    let m2 = ms.remove(c);
    assert forall|z: usize, y: usize| s.contains(z) && y < n && !s.contains(y) && (z == x ==> y < m) implies #[trigger] has_cand(m2, z, y, wt(f, z as int, y as int)) by {
        assert(has_cand(ms, z, y, wt(f, z as int, y as int)));
    }
}
/// The end of the chosen candidate is attached and is the next vertex to look from.
pub proof fn lemma_cands_next<WF: Fn(usize, usize) -> F>(ms: Multiset<WeightedEdge>, s: Set<usize>, n: int, f: WF, x: usize, c: WeightedEdge)
    requires cands(ms, s, n, f, x, n), ms.count(c) > 0, !s.contains(c.v),
    ensures cands(ms.remove(c), s.insert(c.v), n, f, c.v, 0), c.v < n, s.contains(c.u), c.weight == wt(f, c.u as int, c.v as int), !nan(c.weight), c.u < n,
{
    reveal(cands);
    let m2 = ms.remove(c);
    let s2 = s.insert(c.v);
    assert forall|z: usize, y: usize| s2.contains(z) && y < n && !s2.contains(y) && (z == c.v ==> y < 0) implies #[trigger] has_cand(m2, z, y, wt(f, z as int, y as int)) by {
        assert(has_cand(ms, z, y, wt(f, z as int, y as int)));
    }
}

/// Adding a lightest candidate whose end is outside keeps the invariant.
/// Attaching one more vertex leaves the earlier ones attached as they were.
proof fn lemma_att_push(e: Seq<WeightedEdge>, r: int, c: WeightedEdge)
    ensures forall|i: int| #![trigger att(e.push(c), r, i)] #![trigger att(e, r, i)] i <= e.len() ==> att(e.push(c), r, i) == att(e, r, i),
        att(e.push(c), r, e.len() as int + 1) == c.v,
        forall|m: int, y: int| #![trigger is_att(e.push(c), r, m, y)] #![trigger is_att(e, r, m, y)] 0 <= m <= e.len() ==> is_att(e.push(c), r, m, y) == is_att(e, r, m, y),
{
    reveal(is_att);
    let e2 = e.push(c);
    let k = e.len() as int;
    assert forall|m: int, y: int| #![trigger is_att(e2, r, m, y)] #![trigger is_att(e, r, m, y)] 0 <= m <= k implies is_att(e2, r, m, y) == is_att(e, r, m, y) by {
        if is_att(e, r, m, y) { let i = choose|i: int| 0 <= i <= m && #[trigger] att(e, r, i) == y; assert(att(e2, r, i) == y); }
        if is_att(e2, r, m, y) { let i = choose|i: int| 0 <= i <= m && #[trigger] att(e2, r, i) == y; assert(att(e, r, i) == y); }
    }
}
proof fn lemma_att_next(e: Seq<WeightedEdge>, r: int, k: int)
    requires k >= 0,
    ensures forall|y: int| #![trigger is_att(e, r, k + 1, y)] is_att(e, r, k + 1, y) <==> is_att(e, r, k, y) || y == att(e, r, k + 1),
        forall|l: int| #![trigger att(e, r, l)] 0 <= l <= k ==> is_att(e, r, k, att(e, r, l)),
{
    reveal(is_att);
    assert forall|y: int| #![trigger is_att(e, r, k + 1, y)] is_att(e, r, k + 1, y) <==> is_att(e, r, k, y) || y == att(e, r, k + 1) by {
        if is_att(e, r, k, y) { lemma_att_mono(e, r, k, k + 1, y); }
        if is_att(e, r, k + 1, y) {
            let i = choose|i: int| 0 <= i <= k + 1 && #[trigger] att(e, r, i) == y;
            if i <= k { assert(is_att(e, r, k, y)); }
        }
    }
}
/// The top candidate is no heavier than an edge from an attached vertex to another one.
proof fn lemma_top_light<WF: Fn(usize, usize) -> F>(n: int, f: WF, ms: Multiset<WeightedEdge>, s: Set<usize>, cur: usize, c: WeightedEdge, x: usize, y: usize)
    requires cands(ms, s, n, f, cur, n), ms.count(c) > 0, is_top(ms, c), s.contains(x), y < n, !s.contains(y),
    ensures rank(c.weight) <= rank(wt(f, x as int, y as int)),
{
    reveal(cands);
    let d = WeightedEdge { u: x, v: y, weight: wt(f, x as int, y as int) };
    assert(has_cand(ms, x, y, wt(f, x as int, y as int)));
    assert(ms.count(d) > 0);
    assert(forall|z: WeightedEdge| ms.count(z) > 0 ==> (#[trigger] z.ok()));
    assert(d.prio() <= c.prio());
}
proof fn lemma_cand_ok<WF: Fn(usize, usize) -> F>(n: int, f: WF, ms: Multiset<WeightedEdge>, s: Set<usize>, cur: usize, c: WeightedEdge)
    requires cands(ms, s, n, f, cur, n), ms.count(c) > 0,
    ensures s.contains(c.u), c.u < n, c.v < n, c.weight == wt(f, c.u as int, c.v as int), !nan(c.weight),
{ reveal(cands); }
pub proof fn lemma_prim_add<WF: Fn(usize, usize) -> F>(e: Seq<WeightedEdge>, r: usize, n: int, f: WF, ms: Multiset<WeightedEdge>, s: Set<usize>, cur: usize, c: WeightedEdge)
    requires prim(e, r as int, n, f), weights_ok(f, n), n <= usize::MAX,
        forall|y: usize| #[trigger] s.contains(y) <==> is_att(e, r as int, e.len() as int, y as int),
        cands(ms, s, n, f, cur, n),
        ms.count(c) > 0, is_top(ms, c), !s.contains(c.v),
    ensures prim(e.push(c), r as int, n, f), wsum(e.push(c)) == fadd(wsum(e), c.weight),
        forall|y: usize| #[trigger] s.insert(c.v).contains(y) <==> is_att(e.push(c), r as int, e.len() as int + 1, y as int),
{
    reveal(prim);
    let e2 = e.push(c);
    let k = e.len() as int;
    let ri = r as int;
    assert(e2.drop_last() =~= e);
    lemma_att_push(e, ri, c);
    lemma_att_next(e2, ri, k);
    lemma_cand_ok(n, f, ms, s, cur, c);
    assert forall|y: usize| #[trigger] s.insert(c.v).contains(y) <==> is_att(e2, ri, k + 1, y as int) by {
        assert(is_att(e2, ri, k, y as int) == is_att(e, ri, k, y as int));
    }
    assert forall|i: int, l: int, y: int| 0 <= l <= i < e2.len() && 0 <= y < n && !is_att(e2, ri, i, y)
        implies #[trigger] lighter(e2, ri, f, i, l, y) by {
        let x = att(e2, ri, l);
        assert(x == att(e, ri, l));
        if i < k {
            assert(e2[i] == e[i]);
            assert(lighter(e, ri, f, i, l, y));
        } else {
            assert(is_att(e, ri, k, x));
            if l > 0 { assert(e[l - 1].v < n); }
            assert(s.contains(x as usize));
            assert(!is_att(e, ri, k, y));
            assert(!s.contains(y as usize));
            lemma_top_light(n, f, ms, s, cur, c, x as usize, y as usize);
        }
    }
    assert forall|i: int| #![trigger e2[i]] 0 <= i < e2.len() implies e2[i].u < n && e2[i].v < n && e2[i].weight == wt(f, e2[i].u as int, e2[i].v as int) && !nan(e2[i].weight)
        && is_att(e2, ri, i, e2[i].u as int) && !is_att(e2, ri, i, e2[i].v as int) by {
        if i < k { assert(e2[i] == e[i]); }
    }
}
pub proof fn lemma_usize_set(s: Set<usize>, n: int) -> (b: Set<int>)
    requires 0 <= n <= usize::MAX, forall|y: usize| s.contains(y) ==> y < n,
    ensures b.len() == s.len(), s.len() <= n, forall|y: int| b.contains(y) ==> 0 <= y < n, forall|y: int| 0 <= y < n ==> (#[trigger] b.contains(y) <==> s.contains(y as usize)),
        s.len() == n ==> forall|y: usize| y < n ==> s.contains(y),
    decreases s.len()
{
    vstd::set_lib::lemma_int_range(0, n);
    let a = Set::range(0, n);
    let b = if s.len() == 0 { Set::<int>::empty() } else {
        let x = s.choose();
        let c = lemma_usize_set(s.remove(x), n);
        c.insert(x as int)
    };
    if s.len() > 0 {
        let x = s.choose();
        assert(s.contains(x));
    }
    assert forall|y: int| b.contains(y) implies a.contains(y) by {
        if y < 0 || y >= n { assert(s.len() > 0); let x = s.choose(); assert(y != x); }
    }
    vstd::set_lib::lemma_len_subset(b, a);
    if s.len() == n {
        vstd::set_lib::lemma_subset_equality(b, a);
        assert forall|y: usize| y < n implies s.contains(y) by { assert(a.contains(y as int)); }
    }
    b
}
pub proof fn lemma_missing(s: Set<usize>, n: int)
    requires 0 <= n <= usize::MAX, s.len() < n, forall|y: usize| s.contains(y) ==> y < n,
    ensures exists|y: usize| y < n && !s.contains(y),
{
    if forall|y: usize| y < n ==> s.contains(y) {
        let b = lemma_usize_set(s, n);
        vstd::set_lib::lemma_int_range(0, n);
        let a = Set::range(0, n);
        assert forall|y: int| a.contains(y) implies b.contains(y) by { assert(s.contains(y as usize)); }
        vstd::set_lib::lemma_len_subset(a, b);
    }
}
pub proof fn lemma_full(s: Set<usize>, n: int)
    requires 0 <= n <= usize::MAX, s.len() >= n, forall|y: usize| s.contains(y) ==> y < n,
    ensures s.len() == n, forall|y: usize| y < n ==> s.contains(y),
{
    let b = lemma_usize_set(s, n);
}

impl MinimumSpanningTree {
//@fn MinimumSpanningTree::edges
    ensures r@ == self.edges@,
//@end
//@fn MinimumSpanningTree::weight
    ensures r == self.weight,
//@end
//@fn MinimumSpanningTree::build
    requires weights_ok(weight_fn, vertices.len() as int),
    ensures spans(r.edges@, vertices.len() as int, weight_fn), minimal(r.edges@, vertices.len() as int, weight_fn), r.weight == wsum(r.edges@),
//@names vertices weight_fn n_vertices edges attached candidates total_weight current_index index weight edge
//@nloops 3
//@at before loop 0
    proof {
        lemma_prim_start(edges@, attached@, (n_vertices - 1) as usize, n_vertices as int, weight_fn);
        lemma_cands_new(attached@, n_vertices as int, weight_fn, current_index);
    }
//@loop 0
    invariant n_vertices == vertices.len(), n_vertices >= 1, weights_ok(weight_fn, n_vertices as int),
        prim(edges@, (n_vertices - 1) as int, n_vertices as int, weight_fn), edges.len() + 1 == attached@.len(),
        total_weight == wsum(edges@),
        forall|y: usize| #[trigger] attached@.contains(y) <==> is_att(edges@, (n_vertices - 1) as int, edges.len() as int, y as int),
        forall|y: usize| attached@.contains(y) ==> y < n_vertices,
        attached@.contains(current_index),
        cands(candidates.ms(), attached@, n_vertices as int, weight_fn, current_index, 0),
    decreases n_vertices - attached@.len(),
//@loop 1
    invariant n_vertices == vertices.len(), weights_ok(weight_fn, n_vertices as int), it1_n <= it1_end == n_vertices,
       forall|y: usize| attached@.contains(y) ==> y < n_vertices,
        attached@.contains(current_index),
        cands(candidates.ms(), attached@, n_vertices as int, weight_fn, current_index, it1_n as int),
    decreases it1_end - it1_n,
//@at loop 1 start
    proof {
        if attached@.contains(it1_n) { lemma_cands_skip(candidates.ms(), attached@, n_vertices as int, weight_fn, current_index, it1_n as int); }
        lemma_cands_push(candidates.ms(), attached@, n_vertices as int, weight_fn, current_index, it1_n as int, WeightedEdge { u: current_index, v: it1_n, weight: wt(weight_fn, current_index as int, it1_n as int) });
    }
//@at before loop 2
    proof { lemma_missing(attached@, n_vertices as int); }
    let ghost missing = choose|y: usize| y < n_vertices && !attached@.contains(y);
    let ghost (edges0, attached0) = (edges@, attached@);
//@loop 2
    invariant_except_break n_vertices == vertices.len(), n_vertices >= 1, weights_ok(weight_fn, n_vertices as int),
        edges@ == edges0, attached@ == attached0, total_weight == wsum(edges@), attached@.contains(current_index),
        cands(candidates.ms(), attached@, n_vertices as int, weight_fn, current_index, n_vertices as int),
        missing < n_vertices && !attached0.contains(missing),
        prim(edges0, (n_vertices - 1) as int, n_vertices as int, weight_fn), edges0.len() + 1 == attached0.len(),
        forall|y: usize| #[trigger] attached0.contains(y) <==> is_att(edges0, (n_vertices - 1) as int, edges0.len() as int, y as int),
        forall|y: usize| attached0.contains(y) ==> y < n_vertices,
    ensures prim(edges@, (n_vertices - 1) as int, n_vertices as int, weight_fn), edges.len() + 1 == attached@.len(),
        total_weight == wsum(edges@), attached@.len() == attached0.len() + 1,
        forall|y: usize| #[trigger] attached@.contains(y) <==> is_att(edges@, (n_vertices - 1) as int, edges.len() as int, y as int),
        forall|y: usize| attached@.contains(y) ==> y < n_vertices,
        attached@.contains(current_index),
        cands(candidates.ms(), attached@, n_vertices as int, weight_fn, current_index, 0),
    decreases candidates.ms().len(),
//@at loop 2 start
    let ghost ms = candidates.ms();
    proof {
        assert(has_cand(ms, current_index, missing, wt(weight_fn, current_index as int, missing as int))) by { reveal(cands); }
    }
//@at before call contains #2
    proof {
        if attached@.contains(edge.v) { lemma_cands_drop(ms, attached0, n_vertices as int, weight_fn, current_index, n_vertices as int, edge); }
        else {
            lemma_cands_next(ms, attached0, n_vertices as int, weight_fn, current_index, edge);
            lemma_prim_add(edges0, (n_vertices - 1) as usize, n_vertices as int, weight_fn, ms, attached0, current_index, edge);
        }
    }
//@at after loop 0
    proof {
        lemma_full(attached@, n_vertices as int);
        assert forall|y: int| 0 <= y < n_vertices implies #[trigger] is_att(edges@, (n_vertices - 1) as int, edges.len() as int, y) by {
            assert(attached@.contains(y as usize));
        }
        lemma_prim_done(edges@, (n_vertices - 1) as int, n_vertices as int, weight_fn);
    }
//@end
}
} // verus!
