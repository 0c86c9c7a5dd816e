verus! {
// ---- std::collections::BinaryHeap, by the priority its elements' Ord gives (Ord itself is under contract)
pub trait Prio {
    spec fn ok(&self) -> bool;
    spec fn prio(&self) -> int;
}
pub struct Reverse<T>(pub T);
impl<T: Prio> Prio for Reverse<T> {
    open spec fn ok(&self) -> bool { self.0.ok() }
    open spec fn prio(&self) -> int { -self.0.prio() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct BinaryHeap<T> { h: std::marker::PhantomData<T> }
impl<T> BinaryHeap<T> {
    pub uninterp spec fn ms(&self) -> Multiset<T>;
}
/// x is a greatest element of m, provided all are comparable.
pub open spec fn is_top<T: Prio>(m: Multiset<T>, x: T) -> bool {
    (forall|y: T| m.count(y) > 0 ==> (#[trigger] y.ok())) ==> forall|y: T| #![trigger m.count(y)] #![trigger y.prio()] m.count(y) > 0 ==> y.prio() <= x.prio()
}
impl<T: Prio> BinaryHeap<T> {
    #[verifier::external_body]
    pub fn new() -> (r: Self)
        ensures r.ms() == Multiset::<T>::empty(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: Self)
        ensures r.ms() == Multiset::<T>::empty(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn push(&mut self, x: T)
        ensures final(self).ms() == old(self).ms().insert(x),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn pop(&mut self) -> (r: Option<T>)
        ensures match r {
            None => old(self).ms().len() == 0 && final(self).ms() == old(self).ms(),
            Some(x) => old(self).ms().count(x) > 0 && final(self).ms() == old(self).ms().remove(x) && is_top(old(self).ms(), x),
        },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn peek(&self) -> (r: Option<&T>)
        ensures match r {
            None => self.ms().len() == 0,
            Some(x) => self.ms().count(*x) > 0 && is_top(self.ms(), *x),
        },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize)
        ensures r == self.ms().len(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool)
        ensures r == (self.ms().len() == 0),
    { unimplemented!() }
}
} // verus!
