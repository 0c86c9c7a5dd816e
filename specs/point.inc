verus! {
// ---- points: opaque values with coordinates (the point types themselves are under contract in u_points)
#[verifier::external_body]
pub struct P { x: f64 }
impl Clone for P { #[verifier::external_body] fn clone(&self) -> (r: P) ensures r == *self { P { x: self.x } } }
impl Copy for P {}
pub uninterp spec fn pc(p: P, i: int) -> F;
pub uninterp spec fn pdim() -> nat;
pub uninterp spec fn psub(a: P, b: P) -> P;
pub axiom fn axiom_dim() ensures 0 < pdim() <= 5;
pub axiom fn axiom_psub(a: P, b: P)
    ensures forall|i: int| #![trigger pc(psub(a, b), i)] 0 <= i < pdim() ==> pc(psub(a, b), i) == fsub(pc(a, i), pc(b, i));
impl IndexSpecImpl<usize> for P {
    open spec fn index_req(&self, index: &usize) -> bool { *index < pdim() }
}
impl core::ops::Index<usize> for P {
    type Output = F;
    #[verifier::external_body]
    fn index(&self, i: usize) -> (r: &F) ensures *r == pc(*self, i as int) { unimplemented!() }
}
impl SubSpecImpl for P {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, rhs: P) -> bool { true }
    open spec fn sub_spec(self, rhs: P) -> P { psub(self, rhs) }
}
impl Sub for P { type Output = P; #[verifier::external_body] fn sub(self, rhs: P) -> P { unimplemented!() } }
impl P {
    #[verifier::external_body]
    pub fn dim(&self) -> (r: usize) ensures r == pdim() { unimplemented!() }
    #[verifier::external_body]
    pub fn to_vec(&self) -> (r: Vec<F>)
        ensures r@.len() == pdim(), forall|i: int| #![trigger r@[i]] 0 <= i < pdim() ==> r@[i] == pc(*self, i),
    { unimplemented!() }
}
/// All coordinates are finite numbers.
pub open spec fn pfin(p: P) -> bool { forall|i: int| #![trigger pc(p, i)] 0 <= i < pdim() ==> finite(pc(p, i)) }
pub open spec fn allfin(d: Seq<P>) -> bool { forall|i: int| #![trigger d[i]] 0 <= i < d.len() ==> pfin(d[i]) }

// ---- IEEE facts used by the pruning argument
pub uninterp spec fn finite(x: F) -> bool;
pub axiom fn axiom_finite(x: F) ensures finite(x) ==> !nan(x);
pub axiom fn axiom_sub(a: F, b: F)
    requires finite(a), finite(b),
    ensures !nan(fsub(a, b)), rank(a) < rank(b) <==> rank(fsub(a, b)) < 0, rank(a) > rank(b) <==> rank(fsub(a, b)) > 0;
pub axiom fn axiom_sub_mono(a: F, b: F, c: F)
    requires finite(a), finite(b), finite(c), rank(a) <= rank(b),
    ensures rank(fsub(a, c)) <= rank(fsub(b, c)), rank(fsub(c, b)) <= rank(fsub(c, a));
pub axiom fn axiom_sq_sub(a: F, b: F)
    requires finite(a), finite(b),
    ensures fsq(fsub(a, b)) == fsq(fsub(b, a));
pub axiom fn axiom_sq(a: F)
    requires !nan(a),
    ensures !nan(fsq(a)), rank(fsq(a)) >= 0, rank(a) == 0 ==> fsq(a) == fzero();
pub axiom fn axiom_sq_mono(a: F, b: F)
    requires !nan(a), !nan(b), 0 <= rank(a) <= rank(b),
    ensures rank(fsq(a)) <= rank(fsq(b));
pub axiom fn axiom_add_nonneg(a: F, b: F)
    requires !nan(a), !nan(b), rank(a) >= 0, rank(b) >= 0,
    ensures !nan(fadd(a, b)), rank(fadd(a, b)) >= rank(a), rank(fadd(a, b)) >= rank(b);
pub axiom fn axiom_add_zero()
    ensures fadd(fzero(), fzero()) == fzero();
pub axiom fn axiom_sqrt(a: F)
    requires !nan(a), rank(a) >= 0,
    ensures !nan(fsqrt(a)), rank(fsqrt(a)) >= 0;
pub axiom fn axiom_sqrt_zero() ensures fsqrt(fzero()) == fzero();
pub axiom fn axiom_sqrt_mono(a: F, b: F)
    requires !nan(a), !nan(b), 0 <= rank(a) <= rank(b),
    ensures rank(fsqrt(a)) <= rank(fsqrt(b));
} // verus!
