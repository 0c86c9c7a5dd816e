verus! {
//@struct WeightedEdge #[derive(Clone)]
impl Prio for WeightedEdge {
    open spec fn ok(&self) -> bool { !nan(self.weight) }
    open spec fn prio(&self) -> int { -rank(self.weight) }
}
impl WeightedEdge {
//@fn WeightedEdge::new
    ensures r.u == u, r.v == v, r.weight == weight,
//@names u v weight
//@end
//@fn WeightedEdge::u
    ensures r == self.u,
//@end
//@fn WeightedEdge::v
    ensures r == self.v,
//@end
//@fn WeightedEdge::weight
    ensures r == self.weight,
//@end
//@fn WeightedEdge::partial_cmp
    ensures !nan(self.weight) && !nan(other.weight) ==> r == Some(iord(rank(other.weight), rank(self.weight))),
//@names other ordering
//@end
//@fn WeightedEdge::cmp
    ensures !nan(self.weight) && !nan(other.weight) ==> r == iord(rank(other.weight), rank(self.weight)),
//@names other
//@end
}
} // verus!
