verus! {
//@struct Neighbor
impl Neighbor {
//@fn Neighbor::new
    ensures r.index == index, r.distance == distance,
//@names index distance
//@end
}
/// An element taken out of a vector that is being consumed.
#[verifier::external_body]
pub fn take_at<T>(v: &Vec<T>, i: usize) -> (r: T)
    requires i < v@.len(),
    ensures r == v@[i as int],
{ unimplemented!() }
pub proof fn lemma_twice<T>(s: Seq<T>, a: int, b: int)
    requires 0 <= a < b < s.len(), s[a] == s[b],
    ensures s.to_multiset().count(s[a]) >= 2,
{
    let t = s.remove(b);
    s.to_multiset_ensures();
    t.to_multiset_ensures();
    assert(t[a] == s[a]);
    assert(t.contains(s[a]));
    assert(t.to_multiset().count(s[a]) > 0);
    assert(t.to_multiset() == s.to_multiset().remove(s[b]));
}
} // verus!
