verus! {
// ---- growing a cluster
/// q lies near a dense point of the group of s.
pub open spec fn reached(c: Cl, s: int, q: int) -> bool {
    exists|p: int| #![trigger c.near(p, q)] 0 <= p < c.n() && c.dense(p) && c.chained(s, p) && c.near(p, q)
}
/// The labels l0 are grouped, s is a dense point without a label, and its neighbours have been marked.
#[verifier::opaque]
pub open spec fn started(c: Cl, l0: Seq<Label>, seeds: Seq<int>, s: int, l: Seq<Label>, q: Seq<usize>) -> bool {
    &&& c.valid()
    &&& grouped(c, l0, seeds)
    &&& l.len() == c.n()
    &&& 0 <= s < c.n() && c.dense(s) && l0[s] is Undefined
    &&& forall|i: int| #![trigger l0[i]] 0 <= i < s ==> !(l0[i] is Undefined)
    &&& forall|x: int| #![trigger seeds[x]] 0 <= x < seeds.len() ==> seeds[x] < s
    &&& forall|i: int| #![trigger l[i]] 0 <= i < c.n() ==> if c.near(s, i) { l[i] is Marked } else { l[i] == l0[i] }
    &&& forall|j: int| #![trigger q[j]] 0 <= j < q.len() ==> q[j] < c.n() && c.near(s, q[j] as int)
    &&& forall|i: usize| #![trigger q.contains(i)] i < c.n() && c.near(s, i as int) ==> q.contains(i)
}
/// The state of the expansion: ex is a dense point whose neighbours have not all been seen to.
#[verifier::opaque]
pub open spec fn growing(c: Cl, l0: Seq<Label>, seeds: Seq<int>, s: int, l: Seq<Label>, q: Seq<usize>, ex: int) -> bool {
    let k = seeds.len() as int;
    &&& l.len() == c.n()
    &&& forall|j: int| #![trigger q[j]] 0 <= j < q.len() ==> q[j] < c.n() && reached(c, s, q[j] as int)
    &&& forall|i: usize| #![trigger l[i as int]] i < c.n() && l[i as int] is Marked ==> q.contains(i)
    &&& forall|i: int| #![trigger l[i]] 0 <= i < c.n() && l[i] is Assigned ==> if l[i]->Assigned_0 < k { l[i] == l0[i] } else { at(l, i, k) && reached(c, s, i) }
    &&& forall|i: int| #![trigger l[i]] 0 <= i < c.n() && (l[i] is Outlier || l[i] is Undefined) ==> l[i] == l0[i]
    &&& forall|i: int| #![trigger l0[i]] 0 <= i < c.n() && (c.dense(i) || !c.near(s, i)) && l0[i] is Assigned ==> l[i] == l0[i]
    &&& forall|p: int, i: int| #![trigger c.near(p, i)] 0 <= p < c.n() && 0 <= i < c.n() && c.near(p, i) && c.dense(p) && p != ex && at(l, p, k) ==> l[i] is Assigned || q.contains(i as usize)
    &&& forall|i: int| #![trigger c.near(s, i)] 0 <= i < c.n() && c.near(s, i) ==> at(l, i, k) || l[i] is Marked
}
pub open spec fn open_set(l: Seq<Label>) -> Set<int> { Set::<int>::range(0, l.len() as int).filter(|i: int| !(l[i] is Assigned)) }
#[verifier::opaque]
pub open spec fn open(l: Seq<Label>) -> nat { open_set(l).len() }

pub proof fn lemma_start(c: Cl, l0: Seq<Label>, seeds: Seq<int>, s: int, l: Seq<Label>, q: Seq<usize>)
    requires started(c, l0, seeds, s, l, q),
    ensures growing(c, l0, seeds, s, l, q, -1),
{
    reveal(started);
    reveal(growing);
    reveal(grouped);
    lemma_chained_self(c, s);
    let k = seeds.len() as int;
    assert forall|i: int| #![trigger l0[i]] 0 <= i < c.n() && (c.dense(i) || !c.near(s, i)) && l0[i] is Assigned implies l[i] == l0[i] by {
        if c.near(s, i) {
            lemma_near(c, s, i);
            reveal(spread);
            assert(c.near(i, s));
            assert(l0[s] is Assigned);
        }
        assert(l[i] == l0[i]);
    }
    assert forall|p: int, i: int| #![trigger c.near(p, i)] 0 <= p < c.n() && 0 <= i < c.n() && c.near(p, i) && c.dense(p) && at(l, p, k) implies l[i] is Assigned || q.contains(i as usize) by {
        assert(l0[p] == l[p]);
    }
    assert forall|j: int| #![trigger q[j]] 0 <= j < q.len() implies q[j] < c.n() && reached(c, s, q[j] as int) by {
        assert(c.near(s, q[j] as int));
    }
    assert forall|i: usize| #![trigger l[i as int]] i < c.n() && l[i as int] is Marked implies q.contains(i) by {
        if !c.near(s, i as int) { assert(l0[i as int] is Marked); }
    }
    assert forall|i: int| #![trigger l[i]] 0 <= i < c.n() && l[i] is Assigned implies l[i]->Assigned_0 < k && l[i] == l0[i] by {}
}
/// An item that needs nothing is taken from the queue.
pub proof fn lemma_done_item(c: Cl, l0: Seq<Label>, seeds: Seq<int>, s: int, l: Seq<Label>, q: Seq<usize>)
    requires c.valid(), growing(c, l0, seeds, s, l, q, -1), q.len() > 0, l[q[0] as int] is Assigned,
    ensures growing(c, l0, seeds, s, l, q.drop_first(), -1), q[0] < c.n(),
{
    reveal(Cl::valid);
    reveal(growing);
    lemma_taken(q);
    let r = q.drop_first();
    let k = seeds.len() as int;
    assert forall|j: int| #![trigger r[j]] 0 <= j < r.len() implies r[j] < c.n() && reached(c, s, r[j] as int) by { assert(r[j] == q[j + 1]); }
    assert forall|p: int, i: int| #![trigger c.near(p, i)] 0 <= p < c.n() && 0 <= i < c.n() && c.near(p, i) && c.dense(p) && at(l, p, k) implies l[i] is Assigned || r.contains(i as usize) by {
        if q[0] == i as usize { assert(l[i] is Assigned); }
    }
}
pub proof fn lemma_taken(q: Seq<usize>)
    requires q.len() > 0,
    ensures forall|i: usize| #![trigger q.drop_first().contains(i)] #![trigger q.contains(i)] q.contains(i) ==> i == q[0] || q.drop_first().contains(i),
{
    assert forall|i: usize| #![trigger q.drop_first().contains(i)] #![trigger q.contains(i)] q.contains(i) implies i == q[0] || q.drop_first().contains(i) by {
        let j = choose|j: int| 0 <= j < q.len() && q[j] == i;
        if j > 0 { assert(q.drop_first()[j - 1] == i); }
    }
}
/// The item taken from the queue joins the cluster.
pub proof fn lemma_take(c: Cl, l0: Seq<Label>, seeds: Seq<int>, s: int, l: Seq<Label>, q: Seq<usize>, m: Seq<Label>)
    requires c.valid(), grouped(c, l0, seeds), growing(c, l0, seeds, s, l, q, -1), q.len() > 0, !(l[q[0] as int] is Assigned),
        seeds.len() <= usize::MAX, m == l.update(q[0] as int, Label::Assigned(seeds.len() as usize)),
    ensures growing(c, l0, seeds, s, m, q.drop_first(), q[0] as int), q[0] < c.n(), open(m) < open(l),
        l[q[0] as int] is Outlier || !c.dense(q[0] as int) ==> growing(c, l0, seeds, s, m, q.drop_first(), -1),
        c.dense(q[0] as int) ==> c.chained(s, q[0] as int),
{
    let w = q[0] as int;
    let r = q.drop_first();
    assert(c.n() <= usize::MAX) by { reveal(Cl::valid); }
    let k = seeds.len() as int;
    assert(w < c.n() && reached(c, s, w)) by { reveal(growing); }
    if c.dense(w) {
        let p = choose|p: int| #![trigger c.near(p, w)] 0 <= p < c.n() && c.dense(p) && c.chained(s, p) && c.near(p, w);
        lemma_chained_step(c, s, p, w);
    }
    lemma_taken(q);
    assert(open(m) < open(l)) by {
        reveal(growing);
        reveal(open);
        assert(open_set(m) =~= open_set(l).remove(w));
        assert(open_set(l).contains(w));
    }
    assert(l[w] is Outlier ==> !c.dense(w)) by { reveal(growing); reveal(grouped); }
    assert forall|ex: int| #![trigger growing(c, l0, seeds, s, m, r, ex)] ex == w || ex == -1 && !c.dense(w) implies growing(c, l0, seeds, s, m, r, ex) by {
        reveal(growing);
        assert forall|j: int| #![trigger r[j]] 0 <= j < r.len() implies r[j] < c.n() && reached(c, s, r[j] as int) by { assert(r[j] == q[j + 1]); }
        assert forall|i: usize| #![trigger m[i as int]] i < c.n() && m[i as int] is Marked implies r.contains(i) by { assert(l[i as int] is Marked); }
        assert forall|i: int| #![trigger m[i]] 0 <= i < c.n() && m[i] is Assigned implies if m[i]->Assigned_0 < k { m[i] == l0[i] } else { at(m, i, k) && reached(c, s, i) } by {
            if i != w { assert(m[i] == l[i]); }
        }
        assert forall|i: int| #![trigger m[i]] 0 <= i < c.n() && (m[i] is Outlier || m[i] is Undefined) implies m[i] == l0[i] by { assert(m[i] == l[i]); }
        assert forall|i: int| #![trigger l0[i]] 0 <= i < c.n() && (c.dense(i) || !c.near(s, i)) && l0[i] is Assigned implies m[i] == l0[i] by { assert(l[i] == l0[i]); }
        assert forall|p: int, i: int| #![trigger c.near(p, i)] 0 <= p < c.n() && 0 <= i < c.n() && c.near(p, i) && c.dense(p) && p != ex && at(m, p, k) implies m[i] is Assigned || r.contains(i as usize) by {
            assert(p != w);
            assert(at(l, p, k));
            if i != w { assert(m[i] == l[i]); assert(l[i] is Assigned || q.contains(i as usize)); }
        }
        assert forall|i: int| #![trigger c.near(s, i)] 0 <= i < c.n() && c.near(s, i) implies at(m, i, k) || m[i] is Marked by { assert(at(l, i, k) || l[i] is Marked); }
    }
}
/// A neighbour of a dense point of the cluster is marked or queued.
pub proof fn lemma_queue(c: Cl, l0: Seq<Label>, seeds: Seq<int>, s: int, l: Seq<Label>, q: Seq<usize>, ex: int, m: Seq<Label>, i: usize)
    requires c.valid(), growing(c, l0, seeds, s, l, q, ex), 0 <= ex < c.n(), c.dense(ex), c.chained(s, ex), i < c.n(), c.near(ex, i as int),
        m == l || l[i as int] is Undefined && m == l.update(i as int, Label::Marked),
    ensures growing(c, l0, seeds, s, m, q.push(i), ex), open(m) == open(l),
        forall|j: usize| #![trigger q.push(i).contains(j)] #![trigger q.contains(j)] q.contains(j) ==> q.push(i).contains(j),
        q.push(i).contains(i),
{
    reveal(growing);
    let r = q.push(i);
    let k = seeds.len() as int;
    assert(open(m) == open(l)) by { reveal(open); assert(open_set(m) =~= open_set(l)); }
    assert(r[q.len() as int] == i);
    assert forall|j: usize| #![trigger q.push(i).contains(j)] #![trigger q.contains(j)] q.contains(j) implies q.push(i).contains(j) by {
        let a = choose|a: int| 0 <= a < q.len() && q[a] == j;
        assert(r[a] == j);
    }
    assert(reached(c, s, i as int));
    assert forall|j: int| #![trigger r[j]] 0 <= j < r.len() implies r[j] < c.n() && reached(c, s, r[j] as int) by { if j < q.len() { assert(r[j] == q[j]); } }
    assert forall|j: usize| #![trigger m[j as int]] j < c.n() && m[j as int] is Marked implies r.contains(j) by { if j != i { assert(l[j as int] is Marked); assert(q.contains(j)); } }
    assert forall|j: int| #![trigger m[j]] 0 <= j < c.n() && m[j] is Assigned implies if m[j]->Assigned_0 < k { m[j] == l0[j] } else { at(m, j, k) && reached(c, s, j) } by { assert(m[j] == l[j]); }
    assert forall|j: int| #![trigger m[j]] 0 <= j < c.n() && (m[j] is Outlier || m[j] is Undefined) implies m[j] == l0[j] by { assert(m[j] == l[j]); }
    assert forall|j: int| #![trigger l0[j]] 0 <= j < c.n() && (c.dense(j) || !c.near(s, j)) && l0[j] is Assigned implies m[j] == l0[j] by { assert(l[j] == l0[j]); }
    assert forall|p: int, j: int| #![trigger c.near(p, j)] 0 <= p < c.n() && 0 <= j < c.n() && c.near(p, j) && c.dense(p) && p != ex && at(m, p, k) implies m[j] is Assigned || r.contains(j as usize) by {
        assert(at(l, p, k));
        assert(l[j] is Assigned || q.contains(j as usize));
        if l[j] is Assigned { assert(m[j] == l[j]); }
    }
    assert forall|j: int| #![trigger c.near(s, j)] 0 <= j < c.n() && c.near(s, j) implies at(m, j, k) || m[j] is Marked by { assert(at(l, j, k) || l[j] is Marked); }
}
/// A neighbour of a dense point of the cluster that needs nothing.
pub proof fn lemma_known(c: Cl, l0: Seq<Label>, seeds: Seq<int>, s: int, l: Seq<Label>, q: Seq<usize>, ex: int, i: usize)
    requires growing(c, l0, seeds, s, l, q, ex), i < c.n(), l[i as int] is Assigned || l[i as int] is Marked,
    ensures l[i as int] is Assigned || q.contains(i),
{
    reveal(growing);
}
/// All neighbours of ex have been seen to.
pub proof fn lemma_seen(c: Cl, l0: Seq<Label>, seeds: Seq<int>, s: int, l: Seq<Label>, q: Seq<usize>, ex: int)
    requires growing(c, l0, seeds, s, l, q, ex), forall|i: int| #![trigger c.near(ex, i)] 0 <= i < c.n() && c.near(ex, i) ==> l[i] is Assigned || q.contains(i as usize),
    ensures growing(c, l0, seeds, s, l, q, -1),
{
    reveal(growing);
}
/// Once the queue is empty the labels are grouped again.
pub proof fn lemma_grown(c: Cl, l0: Seq<Label>, seeds: Seq<int>, s: int, l1: Seq<Label>, q1: Seq<usize>, l: Seq<Label>, q: Seq<usize>)
    requires started(c, l0, seeds, s, l1, q1), growing(c, l0, seeds, s, l, q, -1), q.len() == 0,
    ensures grouped(c, l, seeds.push(s)), forall|i: int| #![trigger l[i]] 0 <= i < c.n() && !(l0[i] is Undefined) ==> !(l[i] is Undefined), !(l[s] is Undefined),
{
    let k = seeds.len() as int;
    let t = seeds.push(s);
    assert(l.len() == c.n() && l0.len() == c.n() && c.valid() && 0 <= s < c.n() && c.dense(s) && grouped(c, l0, seeds)) by { reveal(started); reveal(growing); reveal(grouped); }
    assert(c.n() <= usize::MAX) by { reveal(Cl::valid); }
    assert(forall|i: usize| #![trigger q.contains(i)] !q.contains(i));
    assert(forall|x: int| #![trigger seeds[x]] 0 <= x < k ==> 0 <= seeds[x] < c.n() && c.dense(seeds[x]) && at(l0, seeds[x], x)) by { reveal(grouped); }
    assert forall|i: int| #![trigger l[i]] 0 <= i < c.n() implies !(l[i] is Marked) by { reveal(growing); assert(l[(i as usize) as int] == l[i]); }
    lemma_near(c, s, s);
    assert(at(l, s, k)) by { reveal(growing); assert(c.near(s, s)); }
    assert forall|i: int| #![trigger l[i]] 0 <= i < c.n() && l[i] is Assigned && l[i]->Assigned_0 < k implies l[i] == l0[i] by { reveal(growing); }
    assert forall|i: int| #![trigger l[i]] 0 <= i < c.n() && l[i] is Assigned && l[i]->Assigned_0 >= k implies at(l, i, k) && reached(c, s, i) by { reveal(growing); }
    assert forall|i: int| #![trigger l0[i]] 0 <= i < c.n() && l0[i] is Assigned implies l[i] is Assigned && (c.dense(i) ==> l[i] == l0[i]) by {
        reveal(growing);
        assert(!(l[i] is Marked));
    }
    assert(spread(c, l)) by {
        reveal(spread);
        assert forall|i: int, j: int| #![trigger c.near(i, j)] 0 <= i < c.n() && 0 <= j < c.n() && c.near(i, j) && c.dense(i) && l[i] is Assigned implies l[j] is Assigned && (c.dense(j) ==> l[j] == l[i]) by {
            reveal(grouped);
            lemma_near(c, i, j);
            if l[i]->Assigned_0 < k {
                assert(l0[i] == l[i]);
                assert(l0[j] is Assigned);
                assert(c.dense(j) ==> l0[j] == l0[i]);
            } else {
                assert(at(l, i, k));
                assert(l[j] is Assigned) by { reveal(growing); }
                if c.dense(j) && l[j]->Assigned_0 < k {
                    assert(l0[j] == l[j]);
                    assert(c.near(j, i));
                    assert(l0[i] == l0[j]);
                    assert(l[i] == l0[i]);
                }
                assert(c.dense(j) ==> at(l, j, k));
            }
        }
    }
    assert forall|i: int, j: int| #![trigger l[i], l[j]] 0 <= i < c.n() && 0 <= j < c.n() && c.dense(i) && c.dense(j) && l[i] is Assigned && l[i] == l[j] implies c.chained(i, j) by {
        if l[i]->Assigned_0 < k {
            reveal(grouped);
            assert(l0[i] == l[i] && l0[j] == l[j]);
        } else {
            lemma_reached_dense(c, s, i);
            lemma_reached_dense(c, s, j);
            lemma_chained_sym(c, s, i);
            lemma_chained_trans(c, i, s, j);
        }
    }
    assert forall|i: int| #![trigger l[i]] 0 <= i < c.n() && !c.dense(i) && l[i] is Assigned implies
            (exists|j: int| #![trigger c.near(j, i)] 0 <= j < c.n() && c.near(j, i) && c.dense(j) && l[j] == l[i]) && border(c, l, t, i, l[i]->Assigned_0 as int) by {
        let x = l[i]->Assigned_0 as int;
        if x < k {
            reveal(grouped);
            assert(l0[i] == l[i]);
            let j = choose|j: int| #![trigger c.near(j, i)] 0 <= j < c.n() && c.near(j, i) && c.dense(j) && l0[j] == l0[i];
            assert(l[j] == l0[j]);
            assert(border(c, l0, seeds, i, x));
            assert(!c.near(s, i)) by { reveal(growing); }
            assert(border(c, l, t, i, x)) by {
                reveal(border);
                assert forall|y: int| #![trigger t[y]] 0 <= y < t.len() implies t[y] == if y < k { seeds[y] } else { s } by {}
                if c.near(seeds[x], i) && forall|y: int| #![trigger seeds[y]] x < y < seeds.len() ==> !c.near(seeds[y], i) {
                    assert(t[x] == seeds[x]);
                    assert forall|y: int| #![trigger t[y]] x < y < t.len() implies !c.near(t[y], i) by { if y < k { assert(t[y] == seeds[y]); assert(!c.near(seeds[y], i)); } }
                } else {
                    assert forall|y: int| #![trigger t[y]] 0 <= y < t.len() implies !c.near(t[y], i) by { if y < k { assert(t[y] == seeds[y]); assert(!c.near(seeds[y], i)); } }
                    assert forall|j: int| #![trigger c.near(j, i)] 0 <= j < c.n() && c.near(j, i) && c.dense(j) && l[j] is Assigned implies l[j]->Assigned_0 >= x by {
                        if l[j]->Assigned_0 < k { assert(l0[j] == l[j]); }
                    }
                }
            }
        } else {
            assert(at(l, i, k) && reached(c, s, i));
            let p = choose|p: int| #![trigger c.near(p, i)] 0 <= p < c.n() && c.dense(p) && c.chained(s, p) && c.near(p, i);
            lemma_spread(c, l, s, p);
            assert(l[p] == l[s] && l[s] == l[i]);
            assert(border(c, l, t, i, k)) by {
                reveal(border);
                assert(t[k] == s);
                if !c.near(s, i) {
                    assert forall|y: int| #![trigger t[y]] 0 <= y < t.len() implies !c.near(t[y], i) by {
                        if y < k {
                            assert(t[y] == seeds[y]);
                            if c.near(seeds[y], i) { lemma_later(c, l0, seeds, i, seeds[y]); assert(l[i] == l0[i]) by { reveal(growing); } reveal(grouped); }
                        }
                    }
                    assert forall|j: int| #![trigger c.near(j, i)] 0 <= j < c.n() && c.near(j, i) && c.dense(j) && l[j] is Assigned implies l[j]->Assigned_0 >= k by {
                        if l[j]->Assigned_0 < k { assert(l0[j] == l[j]); lemma_later(c, l0, seeds, i, j); assert(l[i] == l0[i]) by { reveal(growing); } reveal(grouped); }
                    }
                }
            }
        }
    }
    assert forall|x: int| #![trigger t[x]] 0 <= x < t.len() implies 0 <= t[x] < c.n() && c.dense(t[x]) && at(l, t[x], x) by {
        if x < k { assert(t[x] == seeds[x]); reveal(grouped); assert(at(l0, seeds[x], x)); assert(l[seeds[x]] == l0[seeds[x]]); }
    }
    assert forall|x: int, i: int| #![trigger t[x], l[i]] 0 <= x < t.len() && 0 <= i < c.n() && c.dense(i) && at(l, i, x) implies t[x] <= i by {
        reveal(grouped);
        if x < k { assert(t[x] == seeds[x]); assert(l0[i] == l[i]); assert(at(l0, i, x)); }
        else if i < s {
            assert(!(l0[i] is Undefined)) by { reveal(started); }
            assert(l0[i] is Assigned);
            assert(l[i] == l0[i]);
        }
    }
    assert forall|x: int, y: int| #![trigger t[x], t[y]] 0 <= x < y < t.len() implies t[x] < t[y] by {
        assert(t[x] == seeds[x]);
        if y < k { reveal(grouped); assert(t[y] == seeds[y]); } else { reveal(started); }
    }
    assert forall|i: int| #![trigger l[i]] 0 <= i < c.n() implies !(l[i] is Marked) && (l[i] is Assigned ==> l[i]->Assigned_0 < t.len()) && (l[i] is Outlier ==> !c.dense(i)) by {
        if l[i] is Outlier { reveal(growing); reveal(grouped); assert(l0[i] == l[i]); }
    }
    reveal(grouped);
    assert forall|i: int| #![trigger l[i]] 0 <= i < c.n() && !(l0[i] is Undefined) implies !(l[i] is Undefined) by { reveal(growing); }
}
pub proof fn lemma_reached_dense(c: Cl, s: int, i: int)
    requires reached(c, s, i), 0 <= i < c.n(), c.dense(i),
    ensures c.chained(s, i),
{
    let p = choose|p: int| #![trigger c.near(p, i)] 0 <= p < c.n() && c.dense(p) && c.chained(s, p) && c.near(p, i);
    lemma_chained_step(c, s, p, i);
}
/// A point that joins the new cluster without being near its first point was near no dense point of an earlier one.
pub proof fn lemma_later(c: Cl, l0: Seq<Label>, seeds: Seq<int>, i: int, j: int)
    requires c.valid(), grouped(c, l0, seeds), 0 <= i < c.n(), 0 <= j < c.n(), c.dense(j), c.near(j, i), l0[j] is Assigned,
    ensures l0[i] is Assigned,
{
    reveal(grouped);
    reveal(spread);
}

// ---- the code
//@struct Params
impl Params {
//@fn Params::min_points
    ensures r == self.min_points,
//@end
//@fn Params::epsilon
    ensures r == self.epsilon,
//@end
//@fn Params::metric
    ensures *r == self.metric,
//@end
}
impl Label {
//@fn Label::is_assigned
    ensures r == (*self is Assigned),
//@end
//@fn Label::is_outlier
    ensures r == (*self is Outlier),
//@end
//@fn Label::is_undefined
    ensures r == (*self is Undefined),
//@end
}
//@struct DBSCAN
pub open spec fn problem(d: Seq<P>, p: Params) -> Cl { Cl { d: d, m: p.metric, eps: p.epsilon, min: p.min_points as nat } }
pub open spec fn idx(s: Seq<Neighbor>) -> Seq<usize> { s.map_values(|x: Neighbor| x.index) }
/// The neighbours a radius search reports are the points near the query.
pub open spec fn listed(c: Cl, q: int, s: Seq<Neighbor>) -> bool {
    &&& forall|j: int| #![trigger s[j]] 0 <= j < s.len() ==> s[j].index < c.n() && c.near(q, s[j].index as int)
    &&& forall|i: int| #![trigger c.near(q, i)] 0 <= i < c.n() && c.near(q, i) ==> exists|j: int| #![trigger s[j]] 0 <= j < s.len() && s[j].index == i
    &&& (s.len() >= c.min <==> c.dense(q))
}
pub proof fn lemma_search(t: &KDTree, c: Cl, q: int, s: Seq<Neighbor>)
    requires c.valid(), t.dataset@ == c.d, *t.metric == c.m, 0 <= q < c.n(),
        forall|j: int| #![trigger s[j]] 0 <= j < s.len() ==> s[j].index < c.n() && fle(t.dist(c.d[q], s[j].index as int), c.eps),
        forall|a: int, b: int| #![trigger s[a], s[b]] 0 <= a < b < s.len() ==> s[a].index != s[b].index,
        forall|i: int| #![trigger t.dist(c.d[q], i)] 0 <= i < c.n() && fle(t.dist(c.d[q], i), c.eps) ==> exists|j: int| #![trigger s[j]] 0 <= j < s.len() && s[j].index == i,
    ensures listed(c, q, s),
{
    assert forall|i: int| 0 <= i < c.n() implies #[trigger] c.near(q, i) == fle(t.dist(c.d[q], i), c.eps) by {
        lemma_near(c, q, i);
        reveal(Cl::near);
    }
    let is = indices_of(s);
    assert(is.no_duplicates());
    is.unique_seq_to_set();
    assert(is.to_set() =~= c.nbrs(q)) by {
        assert forall|i: int| #[trigger] is.to_set().contains(i) == c.nbrs(q).contains(i) by {
            if is.to_set().contains(i) {
                let j = choose|j: int| 0 <= j < is.len() && is[j] == i;
                assert(s[j].index == i);
            }
            if c.nbrs(q).contains(i) {
                assert(fle(t.dist(c.d[q], i), c.eps));
                let j = choose|j: int| #![trigger s[j]] 0 <= j < s.len() && s[j].index == i;
                assert(is[j] == i);
            }
        }
    }
    reveal(Cl::dense);
}
pub open spec fn indices_of(s: Seq<Neighbor>) -> Seq<int> { s.map_values(|x: Neighbor| x.index as int) }

/// What a clustering reports for a labelling.
pub open spec fn reports(c: Cl, l: Seq<Label>, seeds: Seq<int>, r: DBSCAN) -> bool {
    &&& forall|x: usize| #![trigger r.centroids@.contains_key(x)] r.centroids@.contains_key(x) <==> x < seeds.len()
    &&& forall|x: usize| #![trigger r.centroids@[x]] x < seeds.len() ==> r.centroids@[x] == pmean(c.d, members(l, x as int, c.n()))
    &&& forall|x: usize| #![trigger r.membership@.contains_key(x)] r.membership@.contains_key(x) <==> x < seeds.len()
    &&& forall|x: usize| #![trigger r.membership@[x]] x < seeds.len() ==> r.membership@[x]@ == members(l, x as int, c.n())
    &&& r.outliers@ == outs(l, c.n())
    &&& seeds.len() <= usize::MAX
}
/// The clusters are numbered 0, 1, ... without gaps.
pub open spec fn clustered(r: &DBSCAN) -> bool {
    forall|x: usize| #![trigger r.centroids@.contains_key(x)] r.centroids@.contains_key(x) <==> x < r.centroids@.len()
}
pub proof fn lemma_none(c: Cl, l: Seq<Label>)
    requires l.len() == c.n(), forall|i: int| #![trigger l[i]] 0 <= i < l.len() ==> l[i] is Undefined,
    ensures grouped(c, l, Seq::empty()),
{
    reveal(grouped);
    reveal(spread);
}
/// A point that is not dense becomes an outlier for now.
pub proof fn lemma_noise(c: Cl, l: Seq<Label>, seeds: Seq<int>, i: int)
    requires grouped(c, l, seeds), 0 <= i < c.n(), l[i] is Undefined, !c.dense(i),
    ensures grouped(c, l.update(i, Label::Outlier), seeds),
{
    reveal(grouped);
    reveal(spread);
    reveal(border);
    let m = l.update(i, Label::Outlier);
    assert forall|a: int| #![trigger m[a]] 0 <= a < c.n() && !c.dense(a) && m[a] is Assigned implies
            (exists|j: int| #![trigger c.near(j, a)] 0 <= j < c.n() && c.near(j, a) && c.dense(j) && m[j] == m[a]) && border(c, m, seeds, a, m[a]->Assigned_0 as int) by {
        let j = choose|j: int| #![trigger c.near(j, a)] 0 <= j < c.n() && c.near(j, a) && c.dense(j) && l[j] == l[a];
        assert(m[j] == m[a]);
    }
    assert forall|x: int| #![trigger seeds[x]] 0 <= x < seeds.len() implies at(m, seeds[x], x) by { assert(at(l, seeds[x], x)); }
    assert forall|x: int, a: int| #![trigger seeds[x], m[a]] 0 <= x < seeds.len() && 0 <= a < c.n() && c.dense(a) && at(m, a, x) implies seeds[x] <= a by { assert(at(l, a, x)); assert(l[a] == m[a]); }
}
pub proof fn lemma_nobody(l: Seq<Label>)
    ensures forall|x: usize| #![trigger members(l, x as int, 0)] members(l, x as int, 0).len() == 0, outs(l, 0) =~= Seq::empty(),
{}
/// One more point is counted.
pub proof fn lemma_tally(c: Cl, l: Seq<Label>, k: int)
    requires 0 <= k < l.len(),
    ensures forall|x: usize| #![trigger members(l, x as int, k + 1)] members(l, x as int, k + 1) == if at(l, k, x as int) { members(l, x as int, k).push(k as usize) } else { members(l, x as int, k) },
        forall|x: usize| #![trigger psum(c.d, members(l, x as int, k + 1))] at(l, k, x as int) && k <= usize::MAX ==> psum(c.d, members(l, x as int, k + 1)) == padd(psum(c.d, members(l, x as int, k)), c.d[k]),
        psum(c.d, Seq::empty()) == pzero(),
        outs(l, k + 1) == if l[k] is Outlier { outs(l, k).push(k as usize) } else { outs(l, k) },
{
    assert forall|x: usize| #![trigger psum(c.d, members(l, x as int, k + 1))] at(l, k, x as int) && k <= usize::MAX implies psum(c.d, members(l, x as int, k + 1)) == padd(psum(c.d, members(l, x as int, k)), c.d[k]) by {
        let s = members(l, x as int, k);
        assert(s.push(k as usize).drop_last() =~= s);
    }
}
pub proof fn lemma_nonempty(c: Cl, l: Seq<Label>, seeds: Seq<int>, x: usize)
    requires grouped(c, l, seeds), complete(l), c.n() <= usize::MAX,
    ensures members(l, x as int, c.n()).len() > 0 <==> x < seeds.len(),
{
    reveal(grouped);
    lemma_members(l, x as int, c.n());
    let m = members(l, x as int, c.n());
    if x < seeds.len() {
        let i = seeds[x as int];
        assert(at(l, i, x as int));
        assert(m.contains(i as usize));
    }
    if m.len() > 0 {
        assert(m.contains(m[0]));
        assert(l[m[0] as int] is Assigned);
    }
}
impl DBSCAN {
//@fn DBSCAN::expand_cluster
//@for C04
    requires started(problem(dataset@, *params), l0, seeds, s, old(labels)@, idx(neighbors@)), problem(dataset@, *params).valid(),
        ns.wf(), ns.dataset@ == dataset@, *ns.metric == params.metric, cluster_id == seeds.len(),
    ensures final(labels)@.len() == old(labels)@.len(), grouped(problem(dataset@, *params), final(labels)@, seeds.push(s)),
        forall|i: int| #![trigger final(labels)@[i]] 0 <= i < dataset@.len() && !(l0[i] is Undefined) ==> !(final(labels)@[i] is Undefined),
        !(final(labels)@[s] is Undefined),
//@ghost Ghost(l0): Ghost<Seq<Label>>
//@ghost Ghost(seeds): Ghost<Seq<int>>
//@ghost Ghost(s): Ghost<int>
//@names cluster_id dataset params ns neighbors labels queue n current_index point secondary_neighbors secondary_neighbor secondary_index
//@nloops 3
//@loop 0
    invariant it0_n <= it0_end, it0_end == neighbors@.len(), queue@.len() == it0_n,
        forall|j: int| #![trigger queue@[j]] 0 <= j < it0_n ==> queue@[j] == neighbors@[j].index,
    decreases it0_end - it0_n,
//@loop 1
    invariant
        c == problem(dataset@, *params), c.valid(), grouped(c, l0, seeds), ns.wf(), ns.dataset@ == dataset@, *ns.metric == params.metric, cluster_id == seeds.len(),
        labels@.len() == dataset@.len(), growing(c, l0, seeds, s, labels@, queue@, -1), allfin(dataset@), !nan(params.epsilon), !flt(params.epsilon, fzero()),
    ensures queue@.len() == 0,
    decreases open(labels@), queue@.len(),
//@loop 2
    invariant it2_n <= it2_end, it2_end == it2_src@.len(),
        c == problem(dataset@, *params), c.valid(), labels@.len() == dataset@.len(), 0 <= current_index < c.n(), c.dense(current_index as int), c.chained(s, current_index as int),
        growing(c, l0, seeds, s, labels@, queue@, current_index as int), open(labels@) < open0,
        listed(c, current_index as int, it2_src@),
        forall|j: int| #![trigger it2_src@[j]] 0 <= j < it2_n ==> labels@[it2_src@[j].index as int] is Assigned || queue@.contains(it2_src@[j].index),
    decreases it2_end - it2_n,
//@at start
    let ghost c = problem(dataset@, *params);
    let ghost nb = neighbors@;
//@at before loop 0
    let ghost typed: Seq<usize> = queue@;
//@at before loop 1
    proof {
        assert(queue@ =~= idx(neighbors@));
        lemma_start(c, l0, seeds, s, labels@, queue@);
        reveal(started);
        reveal(Cl::valid);
        axiom_zero();
    }
//@at loop 1 start
    let ghost (was, wq) = (labels@, queue@);
    let ghost open0 = open(labels@);
    proof {
        if wq.len() > 0 {
            assert(wq[0] < c.n()) by { reveal(growing); }
            if was[wq[0] as int] is Assigned { lemma_done_item(c, l0, seeds, s, was, wq); }
            else { lemma_take(c, l0, seeds, s, was, wq, was.update(wq[0] as int, Label::Assigned(seeds.len() as usize))); }
        }
    }
//@at after let secondary_neighbors
    proof {
        lemma_search(ns, c, current_index as int, secondary_neighbors@);
    }
//@at loop 2 start
    let ghost (lw, lq) = (labels@, queue@);
    let ghost item = it2_src@[it2_n as int].index;
    proof {
        if lw[item as int] is Undefined { lemma_queue(c, l0, seeds, s, lw, lq, current_index as int, lw.update(item as int, Label::Marked), item); }
        else if lw[item as int] is Outlier { lemma_queue(c, l0, seeds, s, lw, lq, current_index as int, lw, item); }
        else { lemma_known(c, l0, seeds, s, lw, lq, current_index as int, item); }
    }
//@at after loop 2
    proof { lemma_seen(c, l0, seeds, s, labels@, queue@, current_index as int); }
//@at end
    proof { lemma_grown(c, l0, seeds, s, old(labels)@, idx(neighbors@), labels@, queue@); }
//@end
//@fn DBSCAN::centroids
//@for C03 C05
    requires clustered(self),
    ensures r@.len() == self.centroids@.len(), forall|x: usize| #![trigger self.centroids@[x]] x < r@.len() ==> r@[x as int] == self.centroids@[x],
//@names cluster_id centroid
//@nloops 1
//@loop 0
    invariant it0_n <= it0_end, it0_end == self.centroids@.len(), clustered(self), acc0@.len() == it0_n,
        forall|x: usize| #![trigger self.centroids@[x]] x < it0_n ==> acc0@[x as int] == self.centroids@[x],
    decreases it0_end - it0_n,
//@end
//@fn DBSCAN::count_at
//@for C03 C05
    ensures r == if self.membership@.contains_key(cluster_id) { self.membership@[cluster_id]@.len() } else { 0 },
//@names cluster_id children
//@end
//@fn DBSCAN::outliers
//@for C05
    ensures r@ == self.outliers@,
//@end
//@fn DBSCAN::fit
    requires problem(dataset@, *params).valid(),
    ensures exists|l: Seq<Label>, seeds: Seq<int>| #![trigger grouped(problem(dataset@, *params), l, seeds)]
        grouped(problem(dataset@, *params), l, seeds) && complete(l) && reports(problem(dataset@, *params), l, seeds, r),
        clustered(&r),
//@pass expand_cluster Ghost(was)
//@pass expand_cluster Ghost(seeds)
//@pass expand_cluster Ghost(index as int)
//@names dataset params dataset_vec nns labels cluster_id index point neighbors neighbor centroids membership outliers label centroid children
//@nloops 4
//@loop 0
    invariant it0_n <= it0_end, it0_end == dataset@.len(), c == problem(dataset@, *params), c.valid(), // @C04
        nns.wf(), nns.dataset@ == dataset@, *nns.metric == params.metric, allfin(dataset@), !nan(params.epsilon), !flt(params.epsilon, fzero()), // @C04
        labels@.len() == dataset@.len(), grouped(c, labels@, seeds), cluster_id == seeds.len(), cluster_id <= it0_n, // @C04
        forall|i: int| #![trigger labels@[i]] 0 <= i < it0_n ==> !(labels@[i] is Undefined), // @C04
        forall|x: int| #![trigger seeds[x]] 0 <= x < seeds.len() ==> seeds[x] < it0_n, // @C04
    decreases it0_end - it0_n,
//@loop 1
    invariant it1_n <= it1_end, it1_end == neighbors@.len(), labels@.len() == dataset@.len(), was.len() == dataset@.len(), // @C04
        c == problem(dataset@, *params), listed(c, index as int, neighbors@), // @C04
        forall|i: int| #![trigger labels@[i]] 0 <= i < dataset@.len() ==> labels@[i] == was[i] || labels@[i] is Marked && c.near(index as int, i), // @C04
        forall|j: int| #![trigger neighbors@[j]] 0 <= j < it1_n ==> labels@[neighbors@[j].index as int] is Marked, // @C04
    decreases it1_end - it1_n,
//@loop 2
    invariant it2_n <= it2_end, it2_end == dataset@.len(), it2_src@ == l, l.len() == dataset@.len(), grouped(c, l, seeds), complete(l), c == problem(dataset@, *params), // @C03 @C05
        forall|x: usize| #![trigger centroids@.contains_key(x)] centroids@.contains_key(x) <==> members(l, x as int, it2_n as int).len() > 0, // @C03 @C05
        forall|x: usize| #![trigger centroids@[x]] centroids@.contains_key(x) ==> centroids@[x] == psum(c.d, members(l, x as int, it2_n as int)), // @C03 @C05
        forall|x: usize| #![trigger membership@.contains_key(x)] membership@.contains_key(x) <==> members(l, x as int, it2_n as int).len() > 0, // @C03 @C05
        forall|x: usize| #![trigger membership@[x]] membership@.contains_key(x) ==> membership@[x]@ == members(l, x as int, it2_n as int), // @C03 @C05
        outliers@ == outs(l, it2_n as int), // @C03 @C05
    decreases it2_end - it2_n,
//@loop 3
    invariant it3_n <= it3_end, it3_end == it3_keys@.len(), c == problem(dataset@, *params), it3_keys@.no_duplicates(), // @C03 @C05
        forall|x: usize| #![trigger it3_keys@.contains(x)] it3_keys@.contains(x) <==> x < seeds.len(), // @C03 @C05
        forall|x: usize| #![trigger centroids@.contains_key(x)] centroids@.contains_key(x) <==> x < seeds.len(), // @C03 @C05
        forall|x: usize| #![trigger membership@.contains_key(x)] membership@.contains_key(x) <==> x < seeds.len(), // @C03 @C05
        forall|x: usize| #![trigger membership@[x]] x < seeds.len() ==> membership@[x]@ == members(l, x as int, c.n()), // @C03 @C05
        forall|x: usize| #![trigger members(l, x as int, c.n())] x < seeds.len() ==> members(l, x as int, c.n()).len() > 0, // @C03 @C05
        forall|j: int| #![trigger it3_keys@[j]] 0 <= j < it3_n ==> centroids@[it3_keys@[j]] == pmean(c.d, members(l, it3_keys@[j] as int, c.n())), // @C03 @C05
        forall|j: int| #![trigger it3_keys@[j]] it3_n <= j < it3_keys@.len() ==> centroids@[it3_keys@[j]] == psum(c.d, members(l, it3_keys@[j] as int, c.n())), // @C03 @C05
    decreases it3_end - it3_n,
//@at start
    let ghost c = problem(dataset@, *params);
    let ghost mut seeds: Seq<int> = Seq::empty();
    let ghost mut was: Seq<Label> = Seq::empty();
    let ghost mut l: Seq<Label> = Seq::empty();
    proof {
        axiom_zero();
        reveal(Cl::valid);
        if dataset@.len() == 0 {
            lemma_none(c, l);
        }
    }
//@at before loop 0
    proof { lemma_none(c, labels@); }
//@at loop 0 start
    proof { was = labels@; }
//@at after let neighbors
    proof { lemma_search(&nns, c, index as int, neighbors@); }
//@at before set labels[index]
    proof { lemma_noise(c, labels@, seeds, index as int); }
//@at before call expand_cluster
    proof {
        assert forall|i: int| #![trigger labels@[i]] 0 <= i < c.n() && c.near(index as int, i) implies labels@[i] is Marked by {
            let j = choose|j: int| #![trigger neighbors@[j]] 0 <= j < neighbors@.len() && neighbors@[j].index == i;
        }
        let q = idx(neighbors@);
        assert forall|i: usize| #![trigger q.contains(i)] i < c.n() && c.near(index as int, i as int) implies q.contains(i) by {
            let j = choose|j: int| #![trigger neighbors@[j]] 0 <= j < neighbors@.len() && neighbors@[j].index == i as int;
            assert(q[j] == i);
        }
        reveal(started);
    }
//@at after call expand_cluster
    proof { seeds = seeds.push(index as int); }
//@at after loop 0
    proof {
        l = labels@;
        lemma_nobody(l);
    }
//@at loop 2 start
    let ghost k = it2_n as int;
    proof {
        assert(!(l[k] is Undefined) && !(l[k] is Marked)) by { reveal(grouped); }
        lemma_tally(c, l, k);
    }
//@at after loop 2
    proof {
        assert forall|x: usize| #![trigger members(l, x as int, c.n())] members(l, x as int, c.n()).len() > 0 <==> x < seeds.len() by { lemma_nonempty(c, l, seeds, x); }
        assert forall|x: usize| #![trigger centroids@.contains_key(x)] centroids@.contains_key(x) <==> x < seeds.len() by { assert(members(l, x as int, c.n()).len() > 0 <==> x < seeds.len()); }
        assert forall|x: usize| #![trigger membership@.contains_key(x)] membership@.contains_key(x) <==> x < seeds.len() by { assert(members(l, x as int, c.n()).len() > 0 <==> x < seeds.len()); }
    }
//@at before loop 3
    proof {
        assert forall|j: int| #![trigger it3_keys@[j]] 0 <= j < it3_keys@.len() implies centroids@.contains_key(it3_keys@[j]) && it3_keys@[j] < seeds.len() by { assert(it3_keys@.contains(it3_keys@[j])); }
    }
//@at loop 3 start
    proof {
        assert(it3_keys@.contains(it3_keys@[it3_n as int]));
        axiom_fof(members(l, it3_keys@[it3_n as int] as int, c.n()).len());
    }
//@at after loop 3
    proof {
        assert forall|x: usize| #![trigger centroids@[x]] x < seeds.len() implies centroids@[x] == pmean(c.d, members(l, x as int, c.n())) by {
            assert(it3_keys@.contains(x));
        }
        assert(grouped(c, l, seeds));
        lemma_first(centroids@.dom(), seeds.len());
    }
//@end
}

// ---- the properties, from the contract of fit
/// C04: the right points are together. C05: every point is accounted for once, clusters are numbered without gaps, centroids are means.
pub proof fn theorem_grouping(c: Cl, l: Seq<Label>, seeds: Seq<int>, r: DBSCAN)
    requires c.valid(), grouped(c, l, seeds), complete(l), reports(c, l, seeds, r),
    ensures well_grouped(c, l),
        forall|i: int| #![trigger l[i]] 0 <= i < c.n() && l[i] is Assigned ==> l[i]->Assigned_0 < seeds.len(),
        forall|x: usize, i: usize| #![trigger r.membership@[x]@.contains(i)] x < seeds.len() ==> (r.membership@[x]@.contains(i) <==> i < c.n() && at(l, i as int, x as int)),
        forall|x: usize| #![trigger r.membership@[x]] x < seeds.len() ==> r.membership@[x]@.len() > 0 && r.membership@[x]@.no_duplicates() && r.centroids@[x] == pmean(c.d, r.membership@[x]@),
        forall|i: usize| #![trigger r.outliers@.contains(i)] r.outliers@.contains(i) <==> i < c.n() && l[i as int] is Outlier,
        forall|a: int, b: int| #![trigger r.outliers@[a], r.outliers@[b]] 0 <= a < b < r.outliers@.len() ==> r.outliers@[a] < r.outliers@[b],
        below(l, seeds.len() as int, c.n()) + r.outliers@.len() == c.n(),
{
    reveal(Cl::valid);
    lemma_well_grouped(c, l, seeds);
    assert forall|i: int| #![trigger l[i]] 0 <= i < c.n() implies l[i] is Outlier || l[i] is Assigned && l[i]->Assigned_0 < seeds.len() by { reveal(grouped); }
    assert forall|x: usize, i: usize| #![trigger r.membership@[x]@.contains(i)] x < seeds.len() implies (r.membership@[x]@.contains(i) <==> i < c.n() && at(l, i as int, x as int)) by { lemma_members(l, x as int, c.n()); }
    assert forall|x: usize| #![trigger r.membership@[x]] x < seeds.len() implies r.membership@[x]@.len() > 0 && r.membership@[x]@.no_duplicates() && r.centroids@[x] == pmean(c.d, r.membership@[x]@) by {
        lemma_members(l, x as int, c.n());
        lemma_nonempty(c, l, seeds, x);
    }
    lemma_outs(l, c.n());
    lemma_account(l, seeds.len() as int, c.n());
}
/// C03: the result is a function of the data, the same on every run, whatever the order the hash maps iterate in.
pub proof fn theorem_same(c: Cl, l1: Seq<Label>, s1: Seq<int>, r1: DBSCAN, l2: Seq<Label>, s2: Seq<int>, r2: DBSCAN)
    requires c.valid(), grouped(c, l1, s1), complete(l1), reports(c, l1, s1, r1), grouped(c, l2, s2), complete(l2), reports(c, l2, s2, r2),
    ensures r1.centroids@ == r2.centroids@, r1.outliers@ == r2.outliers@, r1.membership@.dom() == r2.membership@.dom(),
        forall|x: usize| #![trigger r1.membership@[x]] r1.membership@.contains_key(x) ==> r1.membership@[x]@ == r2.membership@[x]@,
{
    lemma_unique(c, l1, s1, l2, s2);
    assert forall|x: usize| #![trigger r1.centroids@.contains_key(x)] r1.centroids@.contains_key(x) == r2.centroids@.contains_key(x) by {}
    assert forall|x: usize| #![trigger r1.centroids@[x]] r1.centroids@.contains_key(x) implies r1.centroids@[x] == r2.centroids@[x] by { assert(x < s1.len()); assert(r1.centroids@[x] == pmean(c.d, members(l1, x as int, c.n()))); }
    assert(r1.centroids@ =~= r2.centroids@);
    assert(r1.membership@.dom() =~= r2.membership@.dom()) by {
        assert forall|x: usize| r1.membership@.dom().contains(x) == r2.membership@.dom().contains(x) by { assert(r1.membership@.contains_key(x) == r2.membership@.contains_key(x)); }
    }
    assert forall|x: usize| #![trigger r1.membership@[x]] r1.membership@.contains_key(x) implies r1.membership@[x]@ == r2.membership@[x]@ by { assert(x < s1.len()); }
}
} // verus!
