verus! {
//@struct LinearSearch
impl<'a> LinearSearch<'a> {
    pub open spec fn dist(&self, q: P, i: int) -> F { mspec(self.metric, self.dataset@[i], q) }
//@fn LinearSearch::new
    ensures r.dataset@ == dataset@, r.metric == metric,
//@names dataset metric
//@end
//@fn LinearSearch::search
    requires allfin(self.dataset@), pfin(*query),
    ensures r@.len() == if k < self.dataset@.len() { k as nat } else { self.dataset@.len() },
        forall|j: int| #![trigger r@[j]] 0 <= j < r@.len() ==> r@[j].index < self.dataset@.len() && r@[j].distance == self.dist(*query, r@[j].index as int),
        forall|a: int, b: int| #![trigger r@[a], r@[b]] 0 <= a < b < r@.len() ==> r@[a].index != r@[b].index && rank(r@[a].distance) <= rank(r@[b].distance),
        forall|i: int| #![trigger self.dist(*query, i)] 0 <= i < self.dataset@.len() && r@.len() > 0 && (forall|j: int| 0 <= j < r@.len() ==> r@[j].index != i) ==> rank(r@.last().distance) <= rank(self.dist(*query, i)),
//@names query k neighbors index point distance neighbor1 neighbor2 results
//@nloops 2
//@closure 0
    -> (o: Ordering)
    requires !nan(neighbor1.distance), !nan(neighbor2.distance),
    ensures o == iord(rank(neighbor1.distance), rank(neighbor2.distance))
//@loop 0
    invariant it0_n <= it0_end, it0_end == self.dataset@.len(), neighbors@.len() == it0_n,
        forall|j: int| #![trigger neighbors@[j]] 0 <= j < neighbors@.len() ==> neighbors@[j].index == j && neighbors@[j].distance == self.dist(*query, j),
    decreases it0_end - it0_n,
//@loop 1
    invariant it1_n <= it1_end, it1_end == if k < self.dataset@.len() { k as nat } else { self.dataset@.len() }, it1_end <= it1_src@.len(), results@.len() == it1_n,
        forall|j: int| #![trigger results@[j]] 0 <= j < results@.len() ==> results@[j] == it1_src@[j],
    decreases it1_end - it1_n,
//@at before loop 0
    let ghost typed: Seq<Neighbor> = neighbors@;
//@at before loop 1
    let ghost typed: Seq<Neighbor> = results@;
//@at before call sort_unstable_by
    let ghost all = neighbors@;
    proof {
        assert forall|j: int| 0 <= j < all.len() implies !nan((#[trigger] all[j]).distance) by { lemma_distance(self.metric, self.dataset@[j], *query); }
    }
//@at after call sort_unstable_by
    let ghost s = neighbors@;
    proof {
        lemma_same_elements(all, s);
        assert forall|a: int, b: int| #![trigger s[a], s[b]] 0 <= a < b < s.len() implies s[a].index != s[b].index by {
            if s[a].index == s[b].index {
                assert(all.contains(s[a]) && all.contains(s[b]));
                assert(s[a] == s[b]);
                lemma_twice(s, a, b);
                assert(all.no_duplicates());
                all.lemma_multiset_has_no_duplicates();
                all.to_multiset_ensures();
                assert(all.to_multiset().count(s[a]) == 1);
            }
        }
        assert forall|j: int| #![trigger s[j]] 0 <= j < s.len() implies s[j].index < self.dataset@.len() && s[j].distance == self.dist(*query, s[j].index as int) && !nan(s[j].distance) by { assert(all.contains(s[j])); }
        assert forall|a: int, b: int| #![trigger s[a], s[b]] 0 <= a < b < s.len() implies rank(s[a].distance) <= rank(s[b].distance) by {}
    }
//@at end
    proof {
        assert forall|i: int| #![trigger self.dist(*query, i)] 0 <= i < self.dataset@.len() && results@.len() > 0 && (forall|j: int| 0 <= j < results@.len() ==> results@[j].index != i) implies rank(results@.last().distance) <= rank(self.dist(*query, i)) by {
            assert(s.contains(all[i]));
            let p = choose|p: int| 0 <= p < s.len() && s[p] == all[i];
            assert(s[p].index == i);
            if p < results@.len() { assert(results@[p].index == i); }
        }
    }
//@end
//@fn LinearSearch::search_nearest
    requires allfin(self.dataset@), pfin(*query),
    ensures self.dataset@.len() == 0 ==> r is None,
        self.dataset@.len() > 0 ==> r is Some && r->0.index < self.dataset@.len() && r->0.distance == self.dist(*query, r->0.index as int)
            && forall|i: int| 0 <= i < self.dataset@.len() ==> rank(r->0.distance) <= rank(#[trigger] self.dist(*query, i)),
//@names query
//@end
//@fn LinearSearch::search_radius
    requires allfin(self.dataset@), pfin(*query), !nan(radius),
    ensures flt(radius, fzero()) ==> r@.len() == 0,
        forall|j: int| #![trigger r@[j]] 0 <= j < r@.len() ==> r@[j].index < self.dataset@.len() && r@[j].distance == self.dist(*query, r@[j].index as int) && fle(r@[j].distance, radius),
        forall|a: int, b: int| #![trigger r@[a], r@[b]] 0 <= a < b < r@.len() ==> r@[a].index < r@[b].index,
        !flt(radius, fzero()) ==> forall|i: int| #![trigger self.dist(*query, i)] 0 <= i < self.dataset@.len() && fle(self.dist(*query, i), radius) ==> exists|j: int| #![trigger r@[j]] 0 <= j < r@.len() && r@[j].index == i,
//@names query radius neighbors index point distance
//@nloops 1
//@loop 0
    invariant it0_n <= it0_end, it0_end == self.dataset@.len(), !flt(radius, fzero()), !nan(radius), allfin(self.dataset@), pfin(*query),
        forall|j: int| #![trigger neighbors@[j]] 0 <= j < neighbors@.len() ==> neighbors@[j].index < it0_n && neighbors@[j].distance == self.dist(*query, neighbors@[j].index as int) && fle(neighbors@[j].distance, radius),
        forall|a: int, b: int| #![trigger neighbors@[a], neighbors@[b]] 0 <= a < b < neighbors@.len() ==> neighbors@[a].index < neighbors@[b].index,
        forall|i: int| #![trigger self.dist(*query, i)] 0 <= i < it0_n && fle(self.dist(*query, i), radius) ==> exists|j: int| #![trigger neighbors@[j]] 0 <= j < neighbors@.len() && neighbors@[j].index == i,
    decreases it0_end - it0_n,
//@at before loop 0
    let ghost typed: Seq<Neighbor> = neighbors@;
//@at loop 0 start
    let ghost seen = neighbors@;
    proof { assert(pfin(self.dataset@[it0_n as int])); lemma_distance(self.metric, self.dataset@[it0_n as int], *query); }
//@at loop 0 every end
    proof {
        let last = it0_n - 1;
        assert forall|i: int| #![trigger self.dist(*query, i)] 0 <= i < it0_n && fle(self.dist(*query, i), radius) implies exists|j: int| #![trigger neighbors@[j]] 0 <= j < neighbors@.len() && neighbors@[j].index == i by {
            if i == last { assert(neighbors@[neighbors@.len() - 1].index == i); }
            else {
                let j = choose|j: int| #![trigger seen[j]] 0 <= j < seen.len() && seen[j].index == i;
                assert(neighbors@[j] == seen[j]);
            }
        }
    }
//@end
}
} // verus!
