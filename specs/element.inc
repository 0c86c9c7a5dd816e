verus! {
//@struct Element
impl Prio for Element {
    open spec fn ok(&self) -> bool { !nan(self.distance) }
    open spec fn prio(&self) -> int { -rank(self.distance) }
}
impl Element {
//@fn Element::new
    ensures r.index == index, r.distance == distance,
//@names index distance
//@end
//@fn Element::index
    ensures r == self.index,
//@end
//@fn Element::distance
    ensures r == self.distance,
//@end
//@fn Element::partial_cmp
    ensures !nan(self.distance) && !nan(other.distance) ==> r == Some(iord(rank(other.distance), rank(self.distance))),
//@names other ordering
//@end
//@fn Element::cmp
    ensures !nan(self.distance) && !nan(other.distance) ==> r == iord(rank(other.distance), rank(self.distance)),
//@names other
//@end
}
} // verus!
