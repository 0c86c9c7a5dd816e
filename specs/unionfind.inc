verus! {
//@struct UnionFind

// ---- the forest: parents have a larger index, so every walk to the root ends
pub open spec fn forest(p: Seq<usize>) -> bool {
    forall|i: int| #![trigger p[i]] 0 <= i < p.len() ==> i <= p[i] < p.len()
}
pub open spec fn rt(p: Seq<usize>, i: int) -> int
    decreases p.len() - i
{
    if i < 0 || i >= p.len() || p[i] <= i || p[i] >= p.len() { i } else { rt(p, p[i] as int) }
}
pub open spec fn group(p: Seq<usize>, n: int, r: int) -> Set<int> {
    Set::range(0, n).filter(|x: int| rt(p, x) == r)
}
pub open spec fn roots(p: Seq<usize>, m: int) -> Set<int> {
    Set::range(0, m).filter(|x: int| rt(p, x) == x)
}
impl UnionFind {
    pub open spec fn n(&self) -> int { self.parent.len() as int / 2 }
    pub open spec fn root(&self, x: int) -> int { rt(self.parent@, x) }
    /// Elements and merged groups in use are 0..next_label.
    pub open spec fn wf(&self) -> bool {
        &&& forest(self.parent@)
        &&& self.parent.len() == self.size.len()
        &&& self.n() >= 1
        &&& self.parent.len() == 2 * self.n()
        &&& self.n() <= self.next_label < self.parent.len()
        &&& forall|i: int| #![trigger self.parent@[i]] self.next_label <= i < self.parent.len() ==> self.parent@[i] == i
        &&& forall|i: int| #![trigger self.parent@[i]] 0 <= i < self.next_label ==> self.parent@[i] < self.next_label
        &&& forall|r: int| #![trigger self.size@[r]] 0 <= r < self.next_label && self.parent@[r] == r ==> self.size@[r] == group(self.parent@, self.n(), r).len()
        // one root fewer per union
        &&& roots(self.parent@, self.next_label as int).len() == self.parent.len() - self.next_label
    }
    /// The number of original elements in the group of root r.
    pub open spec fn weight(&self, r: int) -> int { group(self.parent@, self.n(), r).len() as int }
}

pub proof fn lemma_rt(p: Seq<usize>, i: int)
    requires forest(p), 0 <= i < p.len(),
    ensures i <= rt(p, i) < p.len(), p[rt(p, i)] == rt(p, i), rt(p, rt(p, i)) == rt(p, i), rt(p, p[i] as int) == rt(p, i),
        p[i] == i <==> rt(p, i) == i,
    decreases p.len() - i
{
    if p[i] > i { lemma_rt(p, p[i] as int); }
}
pub proof fn lemma_rt_bound(p: Seq<usize>, m: int, i: int)
    requires forest(p), 0 <= i < m <= p.len(), forall|j: int| #![trigger p[j]] 0 <= j < m ==> p[j] < m,
    ensures rt(p, i) < m,
    decreases p.len() - i
{
    if p[i] > i { lemma_rt_bound(p, m, p[i] as int); }
}
/// Pointing an element at its root changes no root.
pub proof fn lemma_compress(p: Seq<usize>, i: int, y: int)
    requires forest(p), 0 <= i < p.len(), 0 <= y < p.len(), i < rt(p, i),
    ensures forest(p.update(i, rt(p, i) as usize)), rt(p.update(i, rt(p, i) as usize), y) == rt(p, y),
    decreases p.len() - y
{
    lemma_rt(p, i);
    lemma_rt(p, y);
    let q = p.update(i, rt(p, i) as usize);
    if y == i {
        lemma_compress(p, i, rt(p, i));
    } else if p[y] > y {
        lemma_compress(p, i, p[y] as int);
    }
}
/// Hanging the roots x and y under the fresh root m joins their groups and no others.
pub proof fn lemma_join(p: Seq<usize>, x: int, y: int, m: int, z: int)
    requires forest(p), 0 <= x < m < p.len(), 0 <= y < m, p[x] == x, p[y] == y, p[m] == m,
        0 <= z < p.len(),
    ensures forest(p.update(x, m as usize).update(y, m as usize)),
        rt(p.update(x, m as usize).update(y, m as usize), z) == if rt(p, z) == x || rt(p, z) == y { m } else { rt(p, z) },
    decreases p.len() - z
{
    lemma_rt(p, z);
    let q = p.update(x, m as usize).update(y, m as usize);
    if z == x || z == y {
        lemma_join(p, x, y, m, m);
    } else if p[z] > z {
        lemma_join(p, x, y, m, p[z] as int);
    }
}

impl UnionFind {
    pub proof fn lemma_new(&self, n: int)
        requires n > 0, self.parent.len() == 2 * n, self.size.len() == 2 * n, self.next_label == n,
            forall|i: int| #![trigger self.parent@[i]] 0 <= i < 2 * n ==> self.parent@[i] == i,
            forall|i: int| #![trigger self.size@[i]] 0 <= i < 2 * n ==> self.size@[i] == if i < n { 1int } else { 0int },
        ensures self.wf(), forall|x: int| 0 <= x < n ==> self.root(x) == x,
    {
        assert(roots(self.parent@, n) =~= Set::range(0, n));
        vstd::set_lib::lemma_int_range(0, n);
        assert forall|r: int| #![trigger self.size@[r]] 0 <= r < n implies self.size@[r] == group(self.parent@, n, r).len() by {
            assert(group(self.parent@, n, r) =~= set![r]);
        }
    }
    /// Only roots changed representation: the invariant carries over.
    pub proof fn lemma_same(&self, old_: &Self)
        requires old_.wf(), forest(self.parent@), self.parent.len() == old_.parent.len(), self.size@ == old_.size@, self.next_label == old_.next_label,
            forall|y: int| #![trigger self.root(y)] #![trigger old_.root(y)] 0 <= y < self.parent.len() ==> self.root(y) == old_.root(y),
            forall|i: int| #![trigger self.parent@[i]] self.next_label <= i < self.parent.len() ==> self.parent@[i] == i,
            forall|i: int| #![trigger self.parent@[i]] 0 <= i < self.next_label ==> self.parent@[i] < self.next_label,
        ensures self.wf(), forall|r: int| self.weight(r) == old_.weight(r),
    {
        let m = self.next_label as int;
        assert forall|y: int| 0 <= y < self.parent.len() implies rt(self.parent@, y) == rt(old_.parent@, y) by {
            assert(self.root(y) == old_.root(y));
        }
        assert(roots(self.parent@, m) =~= roots(old_.parent@, m));
        assert forall|r: int| group(self.parent@, self.n(), r) =~= group(old_.parent@, self.n(), r) by {
        }
        assert forall|r: int| #![trigger self.size@[r]] 0 <= r < m && self.parent@[r] == r implies self.size@[r] == group(self.parent@, self.n(), r).len() by {
            lemma_rt(self.parent@, r);
            lemma_rt(old_.parent@, r);
            assert(self.root(r) == old_.root(r));
            assert(old_.parent@[r] == r);
            assert(old_.size@[r] == group(old_.parent@, self.n(), r).len());
        }
    }
    /// Two distinct roots leave room for one more merge, and their groups are disjoint.
    pub proof fn lemma_room(&self, x: int, y: int)
        requires self.wf(), 0 <= x < self.next_label, 0 <= y < self.next_label, x != y, self.parent@[x] == x, self.parent@[y] == y,
        ensures self.next_label + 1 < self.parent.len(), self.size@[x] + self.size@[y] <= self.n(),
    {
        let m = self.next_label as int;
        lemma_rt(self.parent@, x);
        lemma_rt(self.parent@, y);
        let rs = roots(self.parent@, m);
        assert(rs.contains(x) && rs.contains(y));
        assert(set![x, y].subset_of(rs));
        assert(set![x, y].len() == 2);
        vstd::set_lib::lemma_len_subset(set![x, y], rs);
        let a = group(self.parent@, self.n(), x);
        let b = group(self.parent@, self.n(), y);
        vstd::set_lib::lemma_set_disjoint_lens(a, b);
        assert(a.union(b).subset_of(Set::range(0, self.n())));
        vstd::set_lib::lemma_int_range(0, self.n());
        vstd::set_lib::lemma_len_subset(a.union(b), Set::range(0, self.n()));
        assert(self.size@[x] == a.len());
        assert(self.size@[y] == b.len());
    }
    pub proof fn lemma_union(&self, old_: &Self, x: int, y: int)
        requires old_.wf(), 0 <= x < old_.next_label, 0 <= y < old_.next_label, x != y, old_.parent@[x] == x, old_.parent@[y] == y,
            self.parent@ == old_.parent@.update(x, old_.next_label).update(y, old_.next_label),
            self.size@ == old_.size@.update(old_.next_label as int, (old_.size@[x] + old_.size@[y]) as usize),
            self.next_label == old_.next_label + 1,
        ensures self.wf(), self.weight(old_.next_label as int) == old_.size@[x] + old_.size@[y],
            forall|z: int| #![trigger self.root(z)] 0 <= z < self.parent.len() ==> self.root(z) == if old_.root(z) == x || old_.root(z) == y { old_.next_label as int } else { old_.root(z) },
            forall|r: int| 0 <= r < old_.next_label && r != x && r != y && old_.parent@[r] == r ==> self.weight(r) == old_.weight(r),
    {
        old_.lemma_room(x, y);
        let m = old_.next_label as int;
        let (p, q, n) = (old_.parent@, self.parent@, old_.n());
        assert forall|z: int| 0 <= z < p.len() implies rt(q, z) == if rt(p, z) == x || rt(p, z) == y { m } else { rt(p, z) } by {
            lemma_join(p, x, y, m, z);
        }
        lemma_join(p, x, y, m, x);
        assert forall|z: int| #![trigger self.root(z)] 0 <= z < self.parent.len() implies self.root(z) == if old_.root(z) == x || old_.root(z) == y { m } else { old_.root(z) } by {}
        lemma_rt(p, x);
        lemma_rt(p, y);
        lemma_rt(p, m);
        assert forall|z: int| 0 <= z < m implies rt(p, z) < m by { lemma_rt_bound(p, m, z); }
        let (a, b) = (group(p, n, x), group(p, n, y));
        assert(group(q, n, m) =~= a.union(b));
        vstd::set_lib::lemma_set_disjoint_lens(a, b);
        assert(old_.size@[x] == a.len() && old_.size@[y] == b.len());
        assert forall|r: int| 0 <= r < m && r != x && r != y implies group(q, n, r) =~= group(p, n, r) by {}
        assert forall|r: int| #![trigger self.size@[r]] 0 <= r < self.next_label && q[r] == r implies self.size@[r] == group(q, n, r).len() by {
            if r < m {
                assert(p[r] == r);
                assert(old_.size@[r] == group(p, n, r).len());
            }
        }
        let ra = roots(p, m);
        let rb = roots(q, m + 1);
        assert forall|z: int| 0 <= z < m implies (rt(q, z) == z <==> rt(p, z) == z && z != x && z != y) by {
            lemma_rt(p, z);
        }
        assert(rt(q, m) == m);
        assert(rb =~= ra.remove(x).remove(y).insert(m));
        assert(ra.contains(x) && ra.contains(y) && !ra.contains(m));
    }
}

impl UnionFind {
//@fn UnionFind::new
    requires n > 0, 2 * n <= usize::MAX,
    ensures r.wf(), r.n() == n, r.next_label == n,
        forall|x: int| #![trigger r.root(x)] 0 <= x < n ==> r.root(x) == x,
//@names n parent size index
//@nloops 2
//@loop 0
    invariant it0_n <= it0_end == 2 * n, parent.len() == it0_n, forall|i: int| 0 <= i < it0_n ==> parent@[i] == i,
    decreases it0_end - it0_n,
//@loop 1
    invariant it1_n <= it1_end == 2 * n, size.len() == it1_n, forall|i: int| 0 <= i < it1_n ==> size@[i] == if i < n { 1int } else { 0int },
    decreases it1_end - it1_n,
//@at end
    proof { tail_value.lemma_new(n as int); }
//@end

//@fn UnionFind::find
    requires old(self).wf(), x < old(self).next_label,
    ensures final(self).wf(), final(self).n() == old(self).n(), final(self).size@ == old(self).size@, final(self).next_label == old(self).next_label,
        r == old(self).root(x as int), r < final(self).next_label, final(self).root(r as int) == r, final(self).parent@[r as int] == r,
        forall|y: int| #![trigger final(self).root(y)] #![trigger old(self).root(y)] 0 <= y < 2 * old(self).n() ==> final(self).root(y) == old(self).root(y),
        forall|g: int| final(self).weight(g) == old(self).weight(g),
//@names x root parenet
//@nloops 2
//@loop 0
    invariant self.wf(), *self == *old(self), 0 <= root < self.parent.len(), self.root(root as int) == self.root(x as int), root < self.next_label,
    ensures self.parent@[root as int] == root,
    decreases self.parent.len() - root,
//@at loop 0 start
    proof { lemma_rt(self.parent@, root as int); }
//@at after loop 0
    proof {
        lemma_rt(self.parent@, root as int);
        lemma_rt(self.parent@, x as int);
        lemma_rt_bound(self.parent@, self.next_label as int, x as int);
    }
//@loop 1
    invariant old(self).wf(), forest(self.parent@), self.parent.len() == old(self).parent.len(), self.size@ == old(self).size@, self.next_label == old(self).next_label,
        forall|y: int| #![trigger rt(self.parent@, y)] #![trigger rt(old(self).parent@, y)] 0 <= y < self.parent.len() ==> rt(self.parent@, y) == rt(old(self).parent@, y),
        forall|i: int| #![trigger self.parent@[i]] self.next_label <= i < self.parent.len() ==> self.parent@[i] == i,
        forall|i: int| #![trigger self.parent@[i]] 0 <= i < self.next_label ==> self.parent@[i] < self.next_label,
        0 <= parenet < self.parent.len(), parenet < self.next_label, rt(self.parent@, parenet as int) == root, root == rt(old(self).parent@, x as int), root < self.next_label, self.parent@[root as int] == root,
    decreases self.parent.len() - parenet,
//@at loop 1 start
    proof { 
        lemma_rt(self.parent@, parenet as int);
        lemma_rt(self.parent@, root as int);
        let p = self.parent@;
        let i = p[parenet as int] as int;
        lemma_rt(p, i);
        if i != root {
            assert forall|y: int| 0 <= y < p.len() implies #[trigger] rt(p.update(i, root), y) == rt(p, y) by { lemma_compress(p, i, y); }
            lemma_compress(p, i, i);
        }
        let k = parenet as int;
        if k != root {
            assert forall|y: int| 0 <= y < p.len() implies #[trigger] rt(p.update(k, root), y) == rt(p, y) by { lemma_compress(p, k, y); }
            lemma_compress(p, k, k);
        }
    }
//@at end
    proof { 
        assert forall|y: int| #![trigger self.root(y)] #![trigger old(self).root(y)] 0 <= y < self.parent.len() implies self.root(y) == old(self).root(y) by {
            assert(rt(self.parent@, y) == rt(old(self).parent@, y));
        }
        self.lemma_same(old(self));
        lemma_rt(self.parent@, root as int);
    }
//@end

//@fn UnionFind::union
    requires old(self).wf(), x < old(self).next_label, y < old(self).next_label, x != y, old(self).parent@[x as int] == x, old(self).parent@[y as int] == y,
    ensures final(self).wf(), final(self).n() == old(self).n(), final(self).next_label == old(self).next_label + 1,
        r == old(self).weight(x as int) + old(self).weight(y as int), r == final(self).weight(old(self).next_label as int),
        forall|z: int| #![trigger final(self).root(z)] 0 <= z < 2 * old(self).n() ==> final(self).root(z) == if old(self).root(z) == x || old(self).root(z) == y { old(self).next_label as int } else { old(self).root(z) },
        forall|g: int| 0 <= g < old(self).next_label && g != x && g != y && old(self).parent@[g] == g ==> final(self).weight(g) == old(self).weight(g),
//@names x y total
//@at start
    proof { old(self).lemma_room(x as int, y as int); }
//@at end
    proof {
        assert(self.parent@ =~= old(self).parent@.update(x as int, old(self).next_label).update(y as int, old(self).next_label));
        self.lemma_union(old(self), x as int, y as int);
    }
//@end
}
} // verus!
