//@include common.inc
//@include float.inc
//@include heap.inc
//@include edge.inc
//@include element.inc
verus! {
impl Element {
//@fn Element::eq
    ensures !nan(self.distance) && !nan(other.distance) ==> r == (rank(self.distance) == rank(other.distance)),
//@names other
//@end
}
//@struct Swatch
impl Swatch {
//@fn Swatch::partial_cmp
    ensures !nan(self.percentage) && !nan(other.percentage) ==> r == Some(iord(rank(self.percentage), rank(other.percentage))),
//@names other
//@end
//@fn Swatch::cmp
    ensures !nan(self.percentage) && !nan(other.percentage) ==> r == iord(rank(self.percentage), rank(other.percentage)),
//@names other
//@end
}
// ---- the order laws, for the comparison results the contracts above pin down
pub open spec fn edge_cmp(a: WeightedEdge, b: WeightedEdge) -> Ordering { iord(rank(b.weight), rank(a.weight)) }
pub open spec fn element_cmp(a: Element, b: Element) -> Ordering { iord(rank(b.distance), rank(a.distance)) }
pub open spec fn swatch_cmp(a: Swatch, b: Swatch) -> Ordering { iord(rank(a.percentage), rank(b.percentage)) }
pub open spec fn flip(o: Ordering) -> Ordering { match o { Ordering::Less => Ordering::Greater, Ordering::Equal => Ordering::Equal, Ordering::Greater => Ordering::Less } }
pub open spec fn laws<T>(c: spec_fn(T, T) -> Ordering) -> bool {
    &&& forall|a: T| #[trigger] c(a, a) == Ordering::Equal
    &&& forall|a: T, b: T| #[trigger] c(a, b) == flip(c(b, a))
    &&& forall|a: T, b: T, d: T| #![trigger c(a, b), c(b, d)] c(a, b) == c(b, d) ==> c(a, d) == c(a, b)
    &&& forall|a: T, b: T, d: T| #![trigger c(a, b), c(b, d)] c(a, b) == Ordering::Equal ==> c(a, d) == c(b, d)
}
pub proof fn lemma_order_laws()
    ensures laws(|a: WeightedEdge, b: WeightedEdge| edge_cmp(a, b)),
        laws(|a: Element, b: Element| element_cmp(a, b)),
        laws(|a: Swatch, b: Swatch| swatch_cmp(a, b)),
{}
} // verus!
fn main() {}
