verus! {
// ---- floating-point numbers: opaque values with an IEEE comparison
#[verifier::external_body]
pub struct F { x: f64 }
impl Clone for F { #[verifier::external_body] fn clone(&self) -> (r: F) ensures r == *self { F { x: self.x } } }
impl Copy for F {}
pub uninterp spec fn nan(a: F) -> bool;
pub uninterp spec fn rank(a: F) -> int;
pub uninterp spec fn fzero() -> F;
pub uninterp spec fn fmax() -> F;
pub uninterp spec fn fadd(a: F, b: F) -> F;
pub uninterp spec fn fsub(a: F, b: F) -> F;
pub uninterp spec fn fmul(a: F, b: F) -> F;
pub uninterp spec fn fdiv(a: F, b: F) -> F;
pub uninterp spec fn fsq(a: F) -> F;
pub uninterp spec fn fsqrt(a: F) -> F;
pub uninterp spec fn fof(n: nat) -> F;
pub uninterp spec fn fabs(a: F) -> F;
pub uninterp spec fn fone() -> F;
pub uninterp spec fn feps() -> F;
pub open spec fn fle(a: F, b: F) -> bool { !nan(a) && !nan(b) && rank(a) <= rank(b) }
pub open spec fn flt(a: F, b: F) -> bool { !nan(a) && !nan(b) && rank(a) < rank(b) }
pub open spec fn iord(a: int, b: int) -> Ordering { if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater } }
pub open spec fn fcmp(a: F, b: F) -> Option<Ordering> { if nan(a) || nan(b) { None } else { Some(iord(rank(a), rank(b))) } }

pub axiom fn axiom_zero() ensures !nan(fzero()), rank(fzero()) == 0;

impl AddSpecImpl for F {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, rhs: F) -> bool { true }
    open spec fn add_spec(self, rhs: F) -> F { fadd(self, rhs) }
}
impl Add for F { type Output = F; #[verifier::external_body] fn add(self, rhs: F) -> F { F { x: self.x + rhs.x } } }
impl SubSpecImpl for F {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, rhs: F) -> bool { true }
    open spec fn sub_spec(self, rhs: F) -> F { fsub(self, rhs) }
}
impl Sub for F { type Output = F; #[verifier::external_body] fn sub(self, rhs: F) -> F { F { x: self.x - rhs.x } } }
impl MulSpecImpl for F {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, rhs: F) -> bool { true }
    open spec fn mul_spec(self, rhs: F) -> F { fmul(self, rhs) }
}
impl Mul for F { type Output = F; #[verifier::external_body] fn mul(self, rhs: F) -> F { F { x: self.x * rhs.x } } }
impl DivSpecImpl for F {
    open spec fn obeys_div_spec() -> bool { true }
    open spec fn div_req(self, rhs: F) -> bool { true }
    open spec fn div_spec(self, rhs: F) -> F { fdiv(self, rhs) }
}
impl Div for F { type Output = F; #[verifier::external_body] fn div(self, rhs: F) -> F { F { x: self.x / rhs.x } } }
impl PartialEqSpecImpl for F {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, rhs: &F) -> bool { !nan(*self) && !nan(*rhs) && rank(*self) == rank(*rhs) }
}
impl PartialEq for F { #[verifier::external_body] fn eq(&self, rhs: &F) -> bool { self.x == rhs.x } }
impl PartialOrdSpecImpl for F {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, rhs: &F) -> Option<Ordering> { fcmp(*self, *rhs) }
}
impl PartialOrd for F { #[verifier::external_body] fn partial_cmp(&self, rhs: &F) -> Option<Ordering> { self.x.partial_cmp(&rhs.x) } }
impl F {
    #[verifier::external_body] pub fn zero() -> (r: F) ensures r == fzero() { F { x: 0.0 } }
    #[verifier::external_body] pub fn max_value() -> (r: F) ensures r == fmax() { F { x: f64::MAX } }
    #[verifier::external_body] pub fn from_usize(n: usize) -> (r: F) ensures r == fof(n as nat) { F { x: n as f64 } }
    #[verifier::external_body] pub fn powi(self, n: i32) -> (r: F) requires n == 2 ensures r == fsq(self) { F { x: self.x.powi(n) } }
    #[verifier::external_body] pub fn one() -> (r: F) ensures r == fone() { F { x: 1.0 } }
    #[verifier::external_body] pub fn epsilon() -> (r: F) ensures r == feps() { F { x: f64::EPSILON } }
    #[verifier::external_body] pub fn is_zero(&self) -> (r: bool) ensures r == (!nan(*self) && rank(*self) == 0) { self.x == 0.0 }
    #[verifier::external_body] pub fn abs(self) -> (r: F) ensures r == fabs(self), nan(r) == nan(self), rank(r) == if rank(self) < 0 { -rank(self) } else { rank(self) } { F { x: self.x.abs() } }
    #[verifier::external_body] pub fn max(self, other: F) -> (r: F) ensures nan(r) || r == self || r == other, nan(r) == (nan(self) && nan(other)), !nan(self) ==> nan(r) || rank(r) >= rank(self), !nan(other) ==> rank(r) >= rank(other) { F { x: self.x.max(other.x) } }
    #[verifier::external_body] pub fn min(self, other: F) -> (r: F) ensures nan(r) || r == self || r == other, nan(r) == (nan(self) && nan(other)), !nan(self) ==> nan(r) || rank(r) <= rank(self), !nan(other) ==> rank(r) <= rank(other) { F { x: self.x.min(other.x) } }
    #[verifier::external_body] pub fn sqrt(self) -> (r: F) ensures r == fsqrt(self) { F { x: self.x.sqrt() } }
}
pub assume_specification [Ordering::reverse](o: Ordering) -> (r: Ordering)
    ensures r == match o { Ordering::Less => Ordering::Greater, Ordering::Equal => Ordering::Equal, Ordering::Greater => Ordering::Less };
} // verus!
