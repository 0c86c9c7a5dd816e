verus! {
// ---- density-based grouping: what the result of the clustering has to be
/// A clustering problem: points, metric, radius, minimum count.
pub struct Cl { pub d: Seq<P>, pub m: DistanceMetric, pub eps: F, pub min: nat }
impl Cl {
    pub open spec fn n(self) -> int { self.d.len() as int }
    #[verifier::opaque]
    pub open spec fn valid(self) -> bool { allfin(self.d) && !nan(self.eps) && rank(self.eps) >= 0 && self.min >= 1 && self.d.len() <= usize::MAX }
    #[verifier::opaque]
    pub open spec fn near(self, i: int, j: int) -> bool { fle(mspec(self.m, self.d[i], self.d[j]), self.eps) }
    pub open spec fn nbrs(self, i: int) -> Set<int> { Set::<int>::range(0, self.n()).filter(|j: int| self.near(i, j)) }
    #[verifier::opaque]
    pub open spec fn dense(self, i: int) -> bool { self.nbrs(i).len() >= self.min }
    /// A chain of dense points with steps within the radius.
    pub open spec fn chain(self, p: Seq<int>) -> bool {
        &&& p.len() > 0
        &&& forall|k: int| #![trigger p[k]] 0 <= k < p.len() ==> 0 <= p[k] < self.n() && self.dense(p[k])
        &&& forall|k: int| #![trigger p[k]] 0 <= k < p.len() - 1 ==> self.near(p[k], p[k + 1])
    }
    #[verifier::opaque]
    pub open spec fn chained(self, a: int, b: int) -> bool {
        exists|p: Seq<int>| #![trigger self.chain(p)] self.chain(p) && p[0] == a && p.last() == b
    }
}
pub proof fn lemma_near(c: Cl, i: int, j: int)
    requires c.valid(), 0 <= i < c.n(), 0 <= j < c.n(),
    ensures c.near(i, j) == c.near(j, i), c.near(i, i),
{
    reveal(Cl::valid);
    reveal(Cl::near);
    lemma_distance(c.m, c.d[i], c.d[j]);
    axiom_zero();
}
pub proof fn lemma_chained_self(c: Cl, a: int)
    requires 0 <= a < c.n(), c.dense(a),
    ensures c.chained(a, a),
{
    reveal(Cl::chained);
    let p = seq![a];
    assert(c.chain(p) && p[0] == a && p.last() == a);
}
pub proof fn lemma_chained_step(c: Cl, a: int, b: int, x: int)
    requires c.chained(a, b), c.near(b, x), 0 <= x < c.n(), c.dense(x),
    ensures c.chained(a, x),
{
    reveal(Cl::chained);
    let p = choose|p: Seq<int>| #![trigger c.chain(p)] c.chain(p) && p[0] == a && p.last() == b;
    let q = p.push(x);
    assert(p[p.len() - 1] == b);
    assert forall|k: int| #![trigger q[k]] 0 <= k < q.len() - 1 implies c.near(q[k], q[k + 1]) by { assert(q[k] == p[k]); if k + 1 < p.len() { assert(q[k + 1] == p[k + 1]); } }
    assert(c.chain(q) && q[0] == a && q.last() == x);
}
pub proof fn lemma_chained_sym(c: Cl, a: int, b: int)
    requires c.valid(), c.chained(a, b),
    ensures c.chained(b, a),
{
    reveal(Cl::chained);
    let p = choose|p: Seq<int>| #![trigger c.chain(p)] c.chain(p) && p[0] == a && p.last() == b;
    let q = p.reverse();
    assert forall|k: int| #![trigger q[k]] 0 <= k < q.len() - 1 implies c.near(q[k], q[k + 1]) by {
        let l = p.len() - 1 - (k + 1);
        assert(q[k] == p[l + 1] && q[k + 1] == p[l]);
        lemma_near(c, p[l], p[l + 1]);
    }
    assert forall|k: int| #![trigger q[k]] 0 <= k < q.len() implies 0 <= q[k] < c.n() && c.dense(q[k]) by { assert(q[k] == p[p.len() - 1 - k]); }
    assert(c.chain(q) && q[0] == b && q.last() == a);
}
pub proof fn lemma_chained_trans(c: Cl, a: int, b: int, x: int)
    requires c.chained(a, b), c.chained(b, x),
    ensures c.chained(a, x),
{
    reveal(Cl::chained);
    let p = choose|p: Seq<int>| #![trigger c.chain(p)] c.chain(p) && p[0] == a && p.last() == b;
    let q = choose|q: Seq<int>| #![trigger c.chain(q)] c.chain(q) && q[0] == b && q.last() == x;
    let r = p + q.drop_first();
    assert(p[p.len() - 1] == b);
    if q.len() == 1 { assert(r =~= p); }
    assert forall|k: int| #![trigger r[k]] 0 <= k < r.len() implies 0 <= r[k] < c.n() && c.dense(r[k]) by {
        if k < p.len() { assert(r[k] == p[k]); } else { assert(r[k] == q[k - p.len() + 1]); }
    }
    assert forall|k: int| #![trigger r[k]] 0 <= k < r.len() - 1 implies c.near(r[k], r[k + 1]) by {
        if k < p.len() { assert(r[k] == p[k]); } else { assert(r[k] == q[k - p.len() + 1]); }
        if k + 1 < p.len() { assert(r[k + 1] == p[k + 1]); } else { assert(r[k + 1] == q[k + 1 - p.len() + 1]); }
    }
    assert(c.chain(r) && r[0] == a && r.last() == x);
}
pub proof fn lemma_chained_dense(c: Cl, a: int, b: int)
    requires c.chained(a, b),
    ensures 0 <= a < c.n(), 0 <= b < c.n(), c.dense(a), c.dense(b),
{
    reveal(Cl::chained);
    let p = choose|p: Seq<int>| #![trigger c.chain(p)] c.chain(p) && p[0] == a && p.last() == b;
    assert(p[p.len() - 1] == b);
}

// ---- labellings
//@struct Label #[derive(Clone, Copy)]
pub open spec fn at(l: Seq<Label>, i: int, x: int) -> bool { l[i] is Assigned && l[i]->Assigned_0 == x }
/// Density reaches across steps.
#[verifier::opaque]
pub open spec fn spread(c: Cl, l: Seq<Label>) -> bool {
    forall|i: int, j: int| #![trigger c.near(i, j)] 0 <= i < c.n() && 0 <= j < c.n() && c.near(i, j) && c.dense(i) && l[i] is Assigned ==> l[j] is Assigned && (c.dense(j) ==> l[j] == l[i])
}
/// Which cluster a point that is not dense belongs to: the last whose first dense point is near, else the first that has a dense point near.
#[verifier::opaque]
pub open spec fn border(c: Cl, l: Seq<Label>, seeds: Seq<int>, i: int, x: int) -> bool {
    ||| c.near(seeds[x], i) && forall|y: int| #![trigger seeds[y]] x < y < seeds.len() ==> !c.near(seeds[y], i)
    ||| (forall|y: int| #![trigger seeds[y]] 0 <= y < seeds.len() ==> !c.near(seeds[y], i)) && (forall|j: int| #![trigger c.near(j, i)] 0 <= j < c.n() && c.near(j, i) && c.dense(j) && l[j] is Assigned ==> l[j]->Assigned_0 >= x)
}
#[verifier::opaque]
pub open spec fn grouped(c: Cl, l: Seq<Label>, seeds: Seq<int>) -> bool {
    &&& l.len() == c.n()
    &&& forall|i: int| #![trigger l[i]] 0 <= i < c.n() ==> !(l[i] is Marked) && (l[i] is Assigned ==> l[i]->Assigned_0 < seeds.len()) && (l[i] is Outlier ==> !c.dense(i))
    &&& spread(c, l)
    &&& forall|i: int, j: int| #![trigger l[i], l[j]] 0 <= i < c.n() && 0 <= j < c.n() && c.dense(i) && c.dense(j) && l[i] is Assigned && l[i] == l[j] ==> c.chained(i, j)
    &&& forall|i: int| #![trigger l[i]] 0 <= i < c.n() && !c.dense(i) && l[i] is Assigned ==>
            (exists|j: int| #![trigger c.near(j, i)] 0 <= j < c.n() && c.near(j, i) && c.dense(j) && l[j] == l[i]) && border(c, l, seeds, i, l[i]->Assigned_0 as int)
    &&& forall|x: int| #![trigger seeds[x]] 0 <= x < seeds.len() ==> 0 <= seeds[x] < c.n() && c.dense(seeds[x]) && at(l, seeds[x], x)
    &&& forall|x: int, i: int| #![trigger seeds[x], l[i]] 0 <= x < seeds.len() && 0 <= i < c.n() && c.dense(i) && at(l, i, x) ==> seeds[x] <= i
    &&& forall|x: int, y: int| #![trigger seeds[x], seeds[y]] 0 <= x < y < seeds.len() ==> seeds[x] < seeds[y]
}
pub open spec fn complete(l: Seq<Label>) -> bool { forall|i: int| #![trigger l[i]] 0 <= i < l.len() ==> !(l[i] is Undefined) }

pub proof fn lemma_spread(c: Cl, l: Seq<Label>, a: int, b: int)
    requires spread(c, l), c.chained(a, b), l[a] is Assigned,
    ensures l[b] == l[a],
{
    reveal(Cl::chained);
    let p = choose|p: Seq<int>| #![trigger c.chain(p)] c.chain(p) && p[0] == a && p.last() == b;
    lemma_spread_chain(c, l, p);
    assert(p[p.len() - 1] == b);
}
pub proof fn lemma_spread_chain(c: Cl, l: Seq<Label>, p: Seq<int>)
    requires spread(c, l), c.chain(p), l[p[0]] is Assigned,
    ensures l[p.last()] == l[p[0]],
    decreases p.len(),
{
    if p.len() > 1 {
        let q = p.drop_last();
        assert forall|k: int| #![trigger q[k]] 0 <= k < q.len() implies 0 <= q[k] < c.n() && c.dense(q[k]) by { assert(q[k] == p[k]); }
        assert forall|k: int| #![trigger q[k]] 0 <= k < q.len() - 1 implies c.near(q[k], q[k + 1]) by { assert(q[k] == p[k] && q[k + 1] == p[k + 1]); }
        assert(q[0] == p[0]);
        lemma_spread_chain(c, l, q);
        let k = p.len() - 2;
        assert(q.last() == p[k] && p.last() == p[k + 1]);
        assert(c.near(p[k], p[k + 1]));
        reveal(spread);
    }
}

// ---- what the grouping says, in the words of the property
/// Dense points share a cluster exactly when a chain joins them; a point that is not dense is in the cluster of some
/// dense point near it, or an outlier when there is none; dense points are never outliers.
pub open spec fn well_grouped(c: Cl, l: Seq<Label>) -> bool {
    &&& l.len() == c.n()
    &&& forall|i: int| #![trigger l[i]] 0 <= i < c.n() ==> l[i] is Assigned || l[i] is Outlier
    &&& forall|i: int| #![trigger l[i]] 0 <= i < c.n() && c.dense(i) ==> l[i] is Assigned
    &&& forall|i: int, j: int| #![trigger l[i], l[j]] 0 <= i < c.n() && 0 <= j < c.n() && c.dense(i) && c.dense(j) ==> (l[i] == l[j] <==> c.chained(i, j))
    &&& forall|i: int| #![trigger l[i]] 0 <= i < c.n() && !c.dense(i) ==>
            if exists|j: int| #![trigger c.near(j, i)] 0 <= j < c.n() && c.near(j, i) && c.dense(j) {
                exists|j: int| #![trigger c.near(j, i)] 0 <= j < c.n() && c.near(j, i) && c.dense(j) && l[j] == l[i]
            } else { l[i] is Outlier }
}
pub proof fn lemma_well_grouped(c: Cl, l: Seq<Label>, seeds: Seq<int>)
    requires c.valid(), grouped(c, l, seeds), complete(l),
    ensures well_grouped(c, l),
{
    reveal(grouped);
    assert forall|i: int, j: int| #![trigger l[i], l[j]] 0 <= i < c.n() && 0 <= j < c.n() && c.dense(i) && c.dense(j) implies (l[i] == l[j] <==> c.chained(i, j)) by {
        if c.chained(i, j) { lemma_spread(c, l, i, j); }
    }
    assert forall|i: int| #![trigger l[i]] 0 <= i < c.n() && !c.dense(i) implies
            if exists|j: int| #![trigger c.near(j, i)] 0 <= j < c.n() && c.near(j, i) && c.dense(j) {
                exists|j: int| #![trigger c.near(j, i)] 0 <= j < c.n() && c.near(j, i) && c.dense(j) && l[j] == l[i]
            } else { l[i] is Outlier } by {
        if exists|j: int| #![trigger c.near(j, i)] 0 <= j < c.n() && c.near(j, i) && c.dense(j) {
            let j = choose|j: int| #![trigger c.near(j, i)] 0 <= j < c.n() && c.near(j, i) && c.dense(j);
            assert(l[j] is Assigned);
            reveal(spread);
        }
    }
}

// ---- the labelling is determined by the points: every run gives the same one
pub proof fn lemma_seed_least(c: Cl, l: Seq<Label>, seeds: Seq<int>, i: int)
    requires c.valid(), grouped(c, l, seeds), complete(l), 0 <= i < c.n(), c.dense(i),
    ensures l[i] is Assigned, ({ let s = seeds[l[i]->Assigned_0 as int]; c.chained(i, s) && forall|j: int| #![trigger c.dense(j)] 0 <= j < c.n() && c.dense(j) && c.chained(i, j) ==> s <= j }),
{
    reveal(grouped);
    assert(l[i] is Assigned);
    let x = l[i]->Assigned_0 as int;
    let s = seeds[x];
    assert(at(l, s, x));
    assert(l[s] == l[i]);
    assert forall|j: int| #![trigger c.dense(j)] 0 <= j < c.n() && c.dense(j) && c.chained(i, j) implies s <= j by {
        lemma_spread(c, l, i, j);
        assert(at(l, j, x));
    }
}
pub proof fn lemma_same_seeds(c: Cl, l: Seq<Label>, s: Seq<int>, m: Seq<Label>, t: Seq<int>, x: int)
    requires c.valid(), grouped(c, l, s), complete(l), grouped(c, m, t), complete(m), 0 <= x <= s.len(),
    ensures x <= t.len(), forall|y: int| #![trigger s[y]] #![trigger t[y]] 0 <= y < x ==> s[y] == t[y],
    decreases x,
{
    if x > 0 {
        lemma_same_seeds(c, l, s, m, t, x - 1);
        reveal(grouped);
        let a = s[x - 1];
        // the seed of a in the other labelling is a itself
        assert(0 <= a < c.n() && c.dense(a) && at(l, a, x - 1));
        lemma_seed_least(c, l, s, a);
        lemma_seed_least(c, m, t, a);
        let y = m[a]->Assigned_0 as int;
        lemma_chained_self(c, a);
        lemma_chained_dense(c, a, t[y]);
        assert(t[y] == a) by { assert(a <= t[y]); assert(t[y] <= a); }
        // it is not among the first x - 1, which are equal to earlier seeds of l
        if y < x - 1 { assert(s[y] == t[y]); assert(s[y] < s[x - 1]); }
        if y > x - 1 {
            // t[x - 1] < t[y] == a is a seed that l must have before x - 1
            let b = t[x - 1];
            assert(0 <= b < c.n() && c.dense(b) && at(m, b, x - 1));
            lemma_seed_least(c, l, s, b);
            lemma_seed_least(c, m, t, b);
            let z = l[b]->Assigned_0 as int;
            lemma_chained_self(c, b);
            lemma_chained_dense(c, b, s[z]);
            assert(s[z] == b) by { assert(b <= s[z]); assert(s[z] <= b); }
            assert(t[x - 1] < t[y]);
            if z < x - 1 { assert(s[z] == t[z]); assert(t[z] < t[x - 1]); }
            if z > x - 1 { assert(s[x - 1] < s[z]); }
            assert(false);
        }
    }
}
pub proof fn lemma_unique(c: Cl, l: Seq<Label>, s: Seq<int>, m: Seq<Label>, t: Seq<int>)
    requires c.valid(), grouped(c, l, s), complete(l), grouped(c, m, t), complete(m),
    ensures l == m, s == t,
{
    lemma_same_seeds(c, l, s, m, t, s.len() as int);
    lemma_same_seeds(c, m, t, l, s, t.len() as int);
    assert(s =~= t);
    lemma_well_grouped(c, l, s);
    lemma_well_grouped(c, m, t);
    assert forall|i: int| 0 <= i < c.n() && c.dense(i) implies l[i] == m[i] by {
        lemma_seed_least(c, l, s, i);
        lemma_seed_least(c, m, t, i);
        let (x, y) = (l[i]->Assigned_0 as int, m[i]->Assigned_0 as int);
        lemma_chained_dense(c, i, s[x]);
        lemma_chained_dense(c, i, s[y]);
        assert(s[x] == s[y]);
        reveal(grouped);
        assert(x == y) by { if x < y { assert(s[x] < s[y]); } else if y < x { assert(s[y] < s[x]); } }
    }
    assert forall|i: int| 0 <= i < c.n() && !c.dense(i) implies #[trigger] l[i] == m[i] by { lemma_same_border(c, l, m, s, i); }
    assert(l.len() == m.len()) by { reveal(grouped); }
    assert(l =~= m);
}
pub proof fn lemma_same_border(c: Cl, l: Seq<Label>, m: Seq<Label>, s: Seq<int>, i: int)
    requires c.valid(), grouped(c, l, s), complete(l), grouped(c, m, s), complete(m), 0 <= i < c.n(), !c.dense(i),
        forall|j: int| 0 <= j < c.n() && c.dense(j) ==> l[j] == m[j],
    ensures l[i] == m[i],
{
    lemma_well_grouped(c, l, s);
    lemma_well_grouped(c, m, s);
    assert(l[i] is Assigned <==> m[i] is Assigned) by {
        if l[i] is Assigned || m[i] is Assigned {
            assert(exists|j: int| #![trigger c.near(j, i)] 0 <= j < c.n() && c.near(j, i) && c.dense(j));
        }
    }
    if l[i] is Assigned {
        reveal(grouped);
        reveal(border);
        let (x, y) = (l[i]->Assigned_0 as int, m[i]->Assigned_0 as int);
        assert(border(c, l, s, i, x) && border(c, m, s, i, y));
        let a = choose|j: int| #![trigger c.near(j, i)] 0 <= j < c.n() && c.near(j, i) && c.dense(j) && l[j] == l[i];
        let b = choose|j: int| #![trigger c.near(j, i)] 0 <= j < c.n() && c.near(j, i) && c.dense(j) && m[j] == m[i];
        assert(l[a] == m[a] && l[b] == m[b]);
        if x != y {
            assert(0 <= s[x] && 0 <= s[y]);
        }
    }
}

// ---- members of a cluster, outliers
pub open spec fn members(l: Seq<Label>, x: int, k: int) -> Seq<usize>
    decreases k
{
    if k <= 0 { Seq::empty() } else if at(l, k - 1, x) { members(l, x, k - 1).push((k - 1) as usize) } else { members(l, x, k - 1) }
}
pub open spec fn outs(l: Seq<Label>, k: int) -> Seq<usize>
    decreases k
{
    if k <= 0 { Seq::empty() } else if l[k - 1] is Outlier { outs(l, k - 1).push((k - 1) as usize) } else { outs(l, k - 1) }
}
pub proof fn lemma_members(l: Seq<Label>, x: int, k: int)
    requires 0 <= k <= l.len() <= usize::MAX,
    ensures members(l, x, k).len() <= k,
        forall|i: usize| #![trigger members(l, x, k).contains(i)] members(l, x, k).contains(i) <==> i < k && at(l, i as int, x),
        forall|a: int, b: int| #![trigger members(l, x, k)[a], members(l, x, k)[b]] 0 <= a < b < members(l, x, k).len() ==> members(l, x, k)[a] < members(l, x, k)[b],
    decreases k,
{
    if k > 0 {
        lemma_members(l, x, k - 1);
        let s = members(l, x, k - 1);
        let t = members(l, x, k);
        assert forall|i: usize| #![trigger t.contains(i)] t.contains(i) <==> i < k && at(l, i as int, x) by {
            if t.contains(i) { let a = choose|a: int| 0 <= a < t.len() && t[a] == i; if a < s.len() { assert(s[a] == i); assert(s.contains(i)); } }
            if i < k && at(l, i as int, x) {
                if i == k - 1 { assert(t[t.len() - 1] == i); }
                else { assert(s.contains(i)); let a = choose|a: int| 0 <= a < s.len() && s[a] == i; assert(t[a] == i); }
            }
        }
        assert forall|a: int, b: int| #![trigger t[a], t[b]] 0 <= a < b < t.len() implies t[a] < t[b] by {
            assert(a < s.len());
            assert(t[a] == s[a]);
            assert(s.contains(s[a]));
            if b < s.len() { assert(t[b] == s[b]); }
        }
    }
}
pub proof fn lemma_outs(l: Seq<Label>, k: int)
    requires 0 <= k <= l.len() <= usize::MAX,
    ensures outs(l, k).len() <= k,
        forall|i: usize| #![trigger outs(l, k).contains(i)] outs(l, k).contains(i) <==> i < k && l[i as int] is Outlier,
        forall|a: int, b: int| #![trigger outs(l, k)[a], outs(l, k)[b]] 0 <= a < b < outs(l, k).len() ==> outs(l, k)[a] < outs(l, k)[b],
    decreases k,
{
    if k > 0 {
        lemma_outs(l, k - 1);
        let s = outs(l, k - 1);
        let t = outs(l, k);
        assert forall|i: usize| #![trigger t.contains(i)] t.contains(i) <==> i < k && l[i as int] is Outlier by {
            if t.contains(i) { let a = choose|a: int| 0 <= a < t.len() && t[a] == i; if a < s.len() { assert(s[a] == i); assert(s.contains(i)); } }
            if i < k && l[i as int] is Outlier {
                if i == k - 1 { assert(t[t.len() - 1] == i); }
                else { assert(s.contains(i)); let a = choose|a: int| 0 <= a < s.len() && s[a] == i; assert(t[a] == i); }
            }
        }
        assert forall|a: int, b: int| #![trigger t[a], t[b]] 0 <= a < b < t.len() implies t[a] < t[b] by {
            assert(a < s.len());
            assert(t[a] == s[a]);
            assert(s.contains(s[a]));
            if b < s.len() { assert(t[b] == s[b]); }
        }
    }
}
/// The number of points in clusters below x.
pub open spec fn below(l: Seq<Label>, x: int, k: int) -> nat
    decreases x
{
    if x <= 0 { 0 } else { below(l, x - 1, k) + members(l, x - 1, k).len() }
}
pub proof fn lemma_below_step(l: Seq<Label>, x: int, k: int)
    requires 0 < k <= l.len(), x >= 0,
    ensures below(l, x, k) == below(l, x, k - 1) + if l[k - 1] is Assigned && l[k - 1]->Assigned_0 < x { 1nat } else { 0nat },
    decreases x,
{
    if x > 0 { lemma_below_step(l, x - 1, k); }
}
pub proof fn lemma_below_zero(l: Seq<Label>, x: int)
    ensures below(l, x, 0) == 0,
    decreases x,
{
    if x > 0 { lemma_below_zero(l, x - 1); }
}
/// Every point is counted once.
pub proof fn lemma_account(l: Seq<Label>, x: int, k: int)
    requires 0 <= k <= l.len(), x >= 0, forall|i: int| #![trigger l[i]] 0 <= i < l.len() ==> l[i] is Outlier || l[i] is Assigned && l[i]->Assigned_0 < x,
    ensures below(l, x, k) + outs(l, k).len() == k,
    decreases k,
{
    if k <= 0 { lemma_below_zero(l, x); } else { lemma_account(l, x, k - 1); lemma_below_step(l, x, k); assert(l[k - 1] is Outlier || l[k - 1] is Assigned); }
}
} // verus!
