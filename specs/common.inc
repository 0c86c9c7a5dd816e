use vstd::prelude::*;
use vstd::std_specs::ops::*;
use vstd::std_specs::core::*;
use vstd::std_specs::cmp::*;
use vstd::multiset::Multiset;
use std::cmp::Ordering;
use std::cmp::Ordering::Greater;
use std::collections::{HashMap, HashSet, VecDeque};
use core::ops::*;

verus! {

// ---- a panicking path: reaching it is an error of the function that contains it
#[verifier::external_body]
pub fn panic_() -> !
    requires false,
{ panic!() }
// ---- used by the reachability run only
#[verifier::external_body]
pub fn smoke_() -> bool
{ true }
// ---- a rejection the contract allows
#[verifier::external_body]
pub fn reject_() -> !
{ panic!() }

pub fn min_usize(a: usize, b: usize) -> (r: usize)
    ensures r == if a < b { a } else { b },
{ if a < b { a } else { b } }
} // verus!
verus! {
#[verifier::external_body]
pub fn vec_repeat<T: Copy>(x: T, n: usize) -> (r: Vec<T>)
    ensures r.len() == n, forall|i: int| #![trigger r@[i]] 0 <= i < n ==> r@[i] == x,
{ vec![x; n] }
/// The comparator orders the elements of s totally.
pub open spec fn orders<T, C: FnMut(&T, &T) -> Ordering>(c: C, s: Seq<T>) -> bool {
    &&& forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < s.len() && 0 <= j < s.len() ==> c.requires((&s[i], &s[j]))
    &&& forall|i: int, j: int, p: Ordering, q: Ordering| #![trigger c.ensures((&s[i], &s[j]), p), c.ensures((&s[j], &s[i]), q)]
            0 <= i < s.len() && 0 <= j < s.len() && c.ensures((&s[i], &s[j]), p) && c.ensures((&s[j], &s[i]), q) ==> (p == Ordering::Less <==> q == Ordering::Greater) && (p == Ordering::Equal <==> q == Ordering::Equal)
    &&& forall|i: int, j: int, k: int, p: Ordering, q: Ordering, o: Ordering| #![trigger c.ensures((&s[i], &s[j]), p), c.ensures((&s[j], &s[k]), q), c.ensures((&s[i], &s[k]), o)]
            0 <= i < s.len() && 0 <= j < s.len() && 0 <= k < s.len() && c.ensures((&s[i], &s[j]), p) && c.ensures((&s[j], &s[k]), q) && c.ensures((&s[i], &s[k]), o)
            && p != Ordering::Greater && q != Ordering::Greater ==> o != Ordering::Greater
}
pub open spec fn sorted_by<T, C: FnMut(&T, &T) -> Ordering>(c: C, s: Seq<T>) -> bool {
    forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() ==> exists|o: Ordering| #![trigger c.ensures((&s[i], &s[j]), o)] c.ensures((&s[i], &s[j]), o) && o != Ordering::Greater
}
pub assume_specification<T, C: FnMut(&T, &T) -> Ordering> [<[T]>::sort_unstable_by::<C>](s: &mut [T], c: C)
    requires orders(c, old(s)@),
    ensures final(s)@.to_multiset() == old(s)@.to_multiset(), final(s)@.len() == old(s)@.len(), sorted_by(c, final(s)@);
pub assume_specification<T: Clone> [<[T]>::to_vec](s: &[T]) -> (r: Vec<T>)
    ensures r@ == s@;
pub proof fn lemma_same_elements<T>(a: Seq<T>, b: Seq<T>)
    requires a.to_multiset() == b.to_multiset(),
    ensures a.len() == b.len(),
        forall|i: int| 0 <= i < a.len() ==> b.contains(#[trigger] a[i]),
        forall|i: int| 0 <= i < b.len() ==> a.contains(#[trigger] b[i]),
{
    a.to_multiset_ensures();
    b.to_multiset_ensures();
    assert forall|i: int| 0 <= i < a.len() implies b.contains(#[trigger] a[i]) by { assert(a.contains(a[i])); assert(a.to_multiset().count(a[i]) > 0); }
    assert forall|i: int| 0 <= i < b.len() implies a.contains(#[trigger] b[i]) by { assert(b.contains(b[i])); assert(b.to_multiset().count(b[i]) > 0); }
}
} // verus!
