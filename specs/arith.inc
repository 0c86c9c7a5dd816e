verus! {
// ---- points: arithmetic (the point types themselves are under contract in u_points)
pub uninterp spec fn pzero() -> P;
pub uninterp spec fn padd(a: P, b: P) -> P;
pub uninterp spec fn pdivs(a: P, f: F) -> P;
pub axiom fn axiom_pzero()
    ensures forall|i: int| #![trigger pc(pzero(), i)] 0 <= i < pdim() ==> pc(pzero(), i) == fzero();
pub axiom fn axiom_padd(a: P, b: P)
    ensures forall|i: int| #![trigger pc(padd(a, b), i)] 0 <= i < pdim() ==> pc(padd(a, b), i) == fadd(pc(a, i), pc(b, i));
pub axiom fn axiom_pdivs(a: P, f: F)
    ensures forall|i: int| #![trigger pc(pdivs(a, f), i)] 0 <= i < pdim() ==> pc(pdivs(a, f), i) == fdiv(pc(a, i), f);
pub axiom fn axiom_fof(n: nat)
    ensures !nan(fof(n)), n > 0 ==> rank(fof(n)) > 0;
impl AddSpecImpl for P {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, rhs: P) -> bool { true }
    open spec fn add_spec(self, rhs: P) -> P { padd(self, rhs) }
}
impl Add for P { type Output = P; #[verifier::external_body] fn add(self, rhs: P) -> P { unimplemented!() } }
impl DivSpecImpl<F> for P {
    open spec fn obeys_div_spec() -> bool { true }
    open spec fn div_req(self, rhs: F) -> bool { !(rank(rhs) == 0 && !nan(rhs)) }
    open spec fn div_spec(self, rhs: F) -> P { pdivs(self, rhs) }
}
impl Div<F> for P { type Output = P; #[verifier::external_body] fn div(self, rhs: F) -> P { unimplemented!() } }
impl P {
    #[verifier::external_body]
    pub fn zero() -> (r: P) ensures r == pzero() { unimplemented!() }
    #[verifier::external_body]
    pub fn set_zero(&mut self) ensures *final(self) == pzero() { unimplemented!() }
    #[verifier::external_body]
    pub fn add_assign(&mut self, rhs: P) ensures *final(self) == padd(*old(self), rhs) { unimplemented!() }
    #[verifier::external_body]
    pub fn div_assign(&mut self, rhs: F) requires !(rank(rhs) == 0 && !nan(rhs)) ensures *final(self) == pdivs(*old(self), rhs) { unimplemented!() }
}
/// The sum of the members, in order.
pub open spec fn psum(d: Seq<P>, s: Seq<usize>) -> P
    decreases s.len()
{
    if s.len() == 0 { pzero() } else { padd(psum(d, s.drop_last()), d[s.last() as int]) }
}
/// The arithmetic mean of the members.
pub open spec fn pmean(d: Seq<P>, s: Seq<usize>) -> P { pdivs(psum(d, s), fof(s.len())) }
} // verus!
