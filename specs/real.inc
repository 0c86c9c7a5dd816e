verus! {
// ---- floating-point numbers with the real number they stand for.
// The size classes below bound the relative rounding error of one operation, with that of a rounded constant.
// Single or double precision, or double precision only: $PRECISION. All statements are for finite values of moderate size.
#[verifier::external_body]
pub struct F { x: f64 }
impl Clone for F { #[verifier::external_body] fn clone(&self) -> (r: F) ensures r == *self { F { x: self.x } } }
impl Copy for F {}
pub uninterp spec fn fin(x: F) -> bool;
pub uninterp spec fn val(x: F) -> real;
pub uninterp spec fn ucmp(a: F, b: F) -> Option<Ordering>;
pub uninterp spec fn fadd(a: F, b: F) -> F;
pub uninterp spec fn fsub(a: F, b: F) -> F;
pub uninterp spec fn fmul(a: F, b: F) -> F;
pub uninterp spec fn fdiv(a: F, b: F) -> F;
pub uninterp spec fn fneg(a: F) -> F;
pub uninterp spec fn fpowi(a: F, n: i32) -> F;
pub uninterp spec fn fpowf(a: F, b: F) -> F;
pub uninterp spec fn fcbrt(a: F) -> F;
pub uninterp spec fn fround(a: F) -> F;
/// The machine number nearest to a decimal constant, and that of a byte.
pub uninterp spec fn flit(c: real) -> F;
pub uninterp spec fn fbyte(n: u8) -> F;
pub uninterp spec fn fint(n: int) -> F;
pub uninterp spec fn fzero() -> F;
/// The value is a whole number.
pub uninterp spec fn integral(x: F) -> bool;
#[verifier::opaque]
pub open spec fn breal(n: u8) -> real { n as real }
/// Real power, cube root, cube.
pub uninterp spec fn rpow(x: real, y: real) -> real;
pub uninterp spec fn rcbrt(x: real) -> real;
#[verifier::opaque]
pub open spec fn cube(x: real) -> real { x * x * x }
pub open spec fn absr(x: real) -> real { if x < 0real { -x } else { x } }
pub open spec fn near(a: real, b: real, e: real) -> bool { a - b <= e && b - a <= e }
#[verifier::opaque]
pub open spec fn rclamp(x: real, lo: real, hi: real) -> real { if x < lo { lo } else if x > hi { hi } else { x } }
pub broadcast proof fn lemma_rclamp(x: real, lo: real, hi: real)
    requires lo <= hi,
    ensures #[trigger] rclamp(x, lo, hi) == (if x < lo { lo } else if x > hi { hi } else { x }),
{
    reveal(rclamp);
}
pub broadcast proof fn lemma_rclamp_near(x: real, y: real, lo: real, hi: real)
    requires lo <= hi,
    ensures near(#[trigger] rclamp(x, lo, hi), #[trigger] rclamp(y, lo, hi), absr(x - y)),
{
    reveal(rclamp);
}
pub broadcast proof fn lemma_rclamp_bounds(x: real, lo: real, hi: real)
    requires lo <= hi,
    ensures lo <= #[trigger] rclamp(x, lo, hi) <= hi,
{
    reveal(rclamp);
}
pub broadcast proof fn lemma_rclamp_scale(x: real)
    ensures 255real * #[trigger] rclamp(x, 0real, 1real) == rclamp(255real * x, 0real, 255real),
{
    reveal(rclamp);
}
/// a is b up to k roundings, by size classes, and on the same side of 0.
#[verifier::opaque]
pub open spec fn rounded(a: real, b: real, k: real) -> bool {
    &&& b >= 0real ==> a >= 0real
    &&& b <= 0real ==> a <= 0real
    &&& -2real <= b <= 2real ==> near(a, b, $T2real * k)
    &&& -4real <= b <= 4real ==> near(a, b, $T4real * k)
    &&& -128real <= b <= 128real ==> near(a, b, $T7real * k)
    &&& -1024real <= b <= 1024real ==> near(a, b, $T10real * k)
    &&& -16000real <= b <= 16000real ==> near(a, b, $T14real * k)
    &&& -200000real <= b <= 200000real ==> near(a, b, $T17real * k)
}
pub broadcast proof fn lemma_rounded(a: real, b: real, k: real)
    requires #[trigger] rounded(a, b, k),
    ensures ({

    &&& b >= 0real ==> a >= 0real
    &&& b <= 0real ==> a <= 0real
    &&& -2real <= b <= 2real ==> near(a, b, $T2real * k)
    &&& -4real <= b <= 4real ==> near(a, b, $T4real * k)
    &&& -128real <= b <= 128real ==> near(a, b, $T7real * k)
    &&& -1024real <= b <= 1024real ==> near(a, b, $T10real * k)
    &&& -16000real <= b <= 16000real ==> near(a, b, $T14real * k)
    &&& -200000real <= b <= 200000real ==> near(a, b, $T17real * k)
    }),
{
    reveal(rounded);
}
pub broadcast proof fn lemma_rounded_small(a: real, b: real, k: real)
    requires #[trigger] rounded(a, b, k),
    ensures b >= 0real ==> a >= 0real, b <= 0real ==> a <= 0real, -2real <= b <= 2real ==> near(a, b, $T2real * k),
{
    reveal(rounded);
}
pub open spec fn mid(x: F) -> bool { fin(x) && -100000real <= val(x) <= 100000real }

// ---- IEEE arithmetic
pub broadcast axiom fn ax_lit(c: real)
    requires c == 0real || 0.001real <= c <= 10000real || -10000real <= c <= -0.001real,
    ensures fin(flit(c)), near(val(#[trigger] flit(c)), c, $LITreal * absr(c)), (c >= 0real) == (val(flit(c)) >= 0real), (c <= 0real) == (val(flit(c)) <= 0real);
pub broadcast axiom fn ax_byte(n: u8)
    ensures fin(fbyte(n)), val(#[trigger] fbyte(n)) == breal(n), 0real <= breal(n) <= 255real, breal(255) == 255real, integral(fbyte(n));
pub broadcast axiom fn ax_zero()
    ensures fin(#[trigger] fzero()), val(fzero()) == 0real, integral(fzero());
pub broadcast axiom fn ax_add(a: F, b: F)
    requires mid(a), mid(b),
    ensures fin(#[trigger] fadd(a, b)), rounded(val(fadd(a, b)), val(a) + val(b), 1real);
pub broadcast axiom fn ax_sub(a: F, b: F)
    requires mid(a), mid(b),
    ensures fin(#[trigger] fsub(a, b)), rounded(val(fsub(a, b)), val(a) - val(b), 1real);
pub broadcast axiom fn ax_neg(a: F)
    requires mid(a),
    ensures fin(#[trigger] fneg(a)), val(fneg(a)) == -val(a);
// a product or quotient with a constant: the constant and the result are rounded
pub broadcast axiom fn ax_mul_left(c: real, a: F)
    requires mid(a), -10000real <= c <= 10000real,
    ensures fin(#[trigger] fmul(flit(c), a)), rounded(val(fmul(flit(c), a)), c * val(a), 2real);
pub broadcast axiom fn ax_mul_right(a: F, c: real)
    requires mid(a), -10000real <= c <= 10000real,
    ensures fin(#[trigger] fmul(a, flit(c))), rounded(val(fmul(a, flit(c))), c * val(a), 2real);
pub broadcast axiom fn ax_mul_byte_left(a: F)
    requires mid(a),
    ensures fin(#[trigger] fmul(fbyte(255), a)), rounded(val(fmul(fbyte(255), a)), 255real * val(a), 2real);
pub broadcast axiom fn ax_mul_byte_right(a: F)
    requires mid(a),
    ensures fin(#[trigger] fmul(a, fbyte(255))), rounded(val(fmul(a, fbyte(255))), 255real * val(a), 2real);
pub broadcast axiom fn ax_div(a: F, c: real)
    requires mid(a), c <= -0.001real || 0.001real <= c, -10000real <= c <= 10000real,
    ensures fin(#[trigger] fdiv(a, flit(c))), rounded(val(fdiv(a, flit(c))), val(a) / c, 2real);
pub broadcast axiom fn ax_div_byte(a: F)
    requires mid(a),
    ensures fin(#[trigger] fdiv(a, fbyte(255))), rounded(val(fdiv(a, fbyte(255))), val(a) / 255real, 2real);
pub broadcast axiom fn ax_cube_lit(c: real)
    requires -10real <= c <= 10real,
    ensures fin(#[trigger] fpowi(flit(c), 3)), near(val(fpowi(flit(c), 3)), c * c * c, $CUBELITreal * absr(c * c * c) + $CUBEMINreal);
pub broadcast axiom fn ax_cube(a: F)
    requires mid(a), -2real <= val(a) <= 2real,
    ensures fin(#[trigger] fpowi(a, 3)), near(val(fpowi(a, 3)), cube(val(a)), $CUBEreal);
pub broadcast axiom fn ax_cube_left(a: F)
    requires mid(a), -2real <= val(a) <= 2real,
    ensures fin(#[trigger] fmul(fmul(a, a), a)), near(val(fmul(fmul(a, a), a)), cube(val(a)), $CUBEreal);
pub broadcast axiom fn ax_cube_right(a: F)
    requires mid(a), -2real <= val(a) <= 2real,
    ensures fin(#[trigger] fmul(a, fmul(a, a))), near(val(fmul(a, fmul(a, a))), cube(val(a)), $CUBEreal);
pub broadcast axiom fn ax_round(a: F)
    requires mid(a),
    ensures fin(#[trigger] fround(a)), integral(fround(a)), near(val(fround(a)), val(a), 0.5real);
// ---- libm, within a few units in the last place
pub broadcast axiom fn ax_cbrt(a: F)
    requires mid(a), 0real <= val(a) <= 2real,
    ensures fin(#[trigger] fcbrt(a)), val(fcbrt(a)) >= 0real, near(val(fcbrt(a)), rcbrt(val(a)), $CBRTreal);
pub broadcast axiom fn ax_powf(a: F, b: F)
    requires mid(a), mid(b), 0.001real <= val(a) <= 4real, 0.4real <= val(b) <= 2.5real, val(a) <= 1.1real || val(b) <= 0.5real,
    ensures fin(#[trigger] fpowf(a, b)), near(val(fpowf(a, b)), rpow(val(a), val(b)), $POWFreal);
// ---- the real functions
pub broadcast axiom fn ax_rcbrt(x: real)
    requires 0real <= x,
    ensures 0real <= #[trigger] rcbrt(x), cube(rcbrt(x)) == x;
pub broadcast axiom fn ax_rpow(x: real, y: real)
    requires x > 0real, 0real < y,
    ensures 0real <= #[trigger] rpow(x, y), x <= 1real ==> rpow(x, y) <= 1real, x >= 1real ==> rpow(x, y) >= 1real,
        x >= 1real && y <= 1real ==> rpow(x, y) <= x, x <= 1real && y <= 1real ==> rpow(x, y) >= x,
        1real <= x <= 1.1real && y <= 2.5real ==> rpow(x, y) <= 1real + 3real * (x - 1real);
// |d/dx x^y| = y x^(y-1) <= 13.1 and |d/dy x^y| = |x^y ln x| <= 1 on this range
pub broadcast axiom fn ax_rpow_lipschitz(x: real, y: real, s: real, t: real)
    requires 0.003real <= x <= 1.1real, 0.003real <= s <= 1.1real, 0.4real <= y <= 2.5real, 0.4real <= t <= 2.5real,
    ensures near(#[trigger] rpow(x, y), #[trigger] rpow(s, t), 13.1real * absr(x - s) + absr(y - t)),
        y >= 2real && t >= 2real ==> near(rpow(x, y), rpow(s, t), 3real * absr(x - s) + absr(y - t)),
        x >= 0.9real && s >= 0.9real && y <= 0.5real && t <= 0.5real ==> near(rpow(x, y), rpow(s, t), 0.6real * absr(x - s) + absr(y - t));
// ((11/255 + 0.055) / 1.055)^2.4 = 0.00334653...
pub axiom fn ax_rpow_eleven()
    ensures rpow((11real / 255real + 0.055real) / 1.055real, 2.4real) >= 0.0033real;
pub axiom fn ax_rpow_monotone(s: real, t: real, y: real)
    requires 0real < s <= t, y > 0real,
    ensures rpow(s, y) <= rpow(t, y);
pub axiom fn ax_rpow_inverse(x: real, y: real, z: real)
    requires x > 0real, y > 0real, y * z == 1real,
    ensures rpow(rpow(x, y), z) == x;
// 0.0031308^(1/2.4) = 0.0904738459...
pub broadcast axiom fn ax_rpow_threshold(x: real, y: real)
    requires near(y, 1real / 2.4real, 0.000001real), near(x, 0.0031308real, 0.0001real),
    ensures near(#[trigger] rpow(x, y), 0.0904738real, 13.1real * absr(x - 0.0031308real) + 0.000002real);
/// Linear arithmetic only.
pub broadcast group linear { linear_small, lemma_rounded }
/// ... for values between -2 and 2
pub broadcast group linear_small { lemma_rounded_small, ax_lit, ax_byte, ax_zero, ax_add, ax_sub, ax_neg, ax_mul_left, ax_mul_right, ax_mul_byte_left, ax_mul_byte_right, ax_div, ax_div_byte }
pub broadcast group ieee { lemma_rounded, ax_lit, ax_byte, ax_zero, ax_add, ax_sub, ax_neg, ax_mul_left, ax_mul_right, ax_mul_byte_left, ax_mul_byte_right,
    ax_div, ax_div_byte, ax_cube_lit, ax_cube, ax_cube_left, ax_cube_right, ax_round, ax_cbrt, ax_powf,
    ax_rcbrt, ax_rpow, ax_rpow_lipschitz, ax_rpow_threshold }

pub open spec fn rord(a: real, b: real) -> Ordering { if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater } }
pub open spec fn fcmp(a: F, b: F) -> Option<Ordering> { if fin(a) && fin(b) { Some(rord(val(a), val(b))) } else { ucmp(a, b) } }
impl AddSpecImpl for F {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, rhs: F) -> bool { true }
    open spec fn add_spec(self, rhs: F) -> F { fadd(self, rhs) }
}
impl Add for F { type Output = F; #[verifier::external_body] fn add(self, rhs: F) -> F { F { x: self.x + rhs.x } } }
impl SubSpecImpl for F {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, rhs: F) -> bool { true }
    open spec fn sub_spec(self, rhs: F) -> F { fsub(self, rhs) }
}
impl Sub for F { type Output = F; #[verifier::external_body] fn sub(self, rhs: F) -> F { F { x: self.x - rhs.x } } }
impl MulSpecImpl for F {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, rhs: F) -> bool { true }
    open spec fn mul_spec(self, rhs: F) -> F { fmul(self, rhs) }
}
impl Mul for F { type Output = F; #[verifier::external_body] fn mul(self, rhs: F) -> F { F { x: self.x * rhs.x } } }
impl DivSpecImpl for F {
    open spec fn obeys_div_spec() -> bool { true }
    open spec fn div_req(self, rhs: F) -> bool { true }
    open spec fn div_spec(self, rhs: F) -> F { fdiv(self, rhs) }
}
impl Div for F { type Output = F; #[verifier::external_body] fn div(self, rhs: F) -> F { F { x: self.x / rhs.x } } }
impl NegSpecImpl for F {
    open spec fn obeys_neg_spec() -> bool { true }
    open spec fn neg_req(self) -> bool { true }
    open spec fn neg_spec(self) -> F { fneg(self) }
}
impl Neg for F { type Output = F; #[verifier::external_body] fn neg(self) -> F { F { x: -self.x } } }
impl PartialEqSpecImpl for F {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, rhs: &F) -> bool { fcmp(*self, *rhs) == Some(Ordering::Equal) }
}
impl PartialEq for F { #[verifier::external_body] fn eq(&self, rhs: &F) -> bool { self.x == rhs.x } }
impl PartialOrdSpecImpl for F {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, rhs: &F) -> Option<Ordering> { fcmp(*self, *rhs) }
}
impl PartialOrd for F { #[verifier::external_body] fn partial_cmp(&self, rhs: &F) -> Option<Ordering> { self.x.partial_cmp(&rhs.x) } }
impl F {
    #[verifier::external_body] pub fn zero() -> (r: F) ensures r == fzero() { F { x: 0.0 } }
    #[verifier::external_body] pub fn powi(self, n: i32) -> (r: F) ensures r == fpowi(self, n) { F { x: self.x.powi(n) } }
    #[verifier::external_body] pub fn powf(self, y: F) -> (r: F) ensures r == fpowf(self, y) { F { x: self.x.powf(y.x) } }
    #[verifier::external_body] pub fn cbrt(self) -> (r: F) ensures r == fcbrt(self) { F { x: self.x.cbrt() } }
    #[verifier::external_body] pub fn round(self) -> (r: F) ensures r == fround(self) { F { x: self.x.round() } }
    /// num_traits: the integer part, for values between -1 and 256.
    #[verifier::external_body]
    pub fn to_u8(&self) -> (r: Option<u8>)
        ensures mid(*self) && 0real <= val(*self) && val(*self) < 256real ==> r is Some && breal(r->0) <= val(*self) && val(*self) < breal(r->0) + 1real && (integral(*self) ==> breal(r->0) == val(*self)),
            mid(*self) && (val(*self) <= -1real || val(*self) >= 256real) ==> r is None,
    { unimplemented!() }
}
pub trait Number: Sized {
    spec fn of_byte(n: u8) -> Self;
    spec fn of_int(n: int) -> Self;
    fn from_u8(n: u8) -> (r: Self) ensures r == Self::of_byte(n);
    fn from_u32(n: u32) -> (r: Self) ensures r == Self::of_int(n as int);
    fn from_u64(n: u64) -> (r: Self) ensures r == Self::of_int(n as int);
    fn from_usize(n: usize) -> (r: Self) ensures r == Self::of_int(n as int);
}
pub trait Float: Number {
    spec fn of_lit(c: real) -> Self;
    /// `from_f64` of a constant expression, with the real number the expression denotes.
    fn lit(c: Ghost<real>) -> (r: Self) ensures r == Self::of_lit(c@);
}
impl Number for F {
    open spec fn of_byte(n: u8) -> F { fbyte(n) }
    open spec fn of_int(n: int) -> F { fint(n) }
    #[verifier::external_body] fn from_u8(n: u8) -> F { F { x: n as f64 } }
    #[verifier::external_body] fn from_u32(n: u32) -> F { F { x: n as f64 } }
    #[verifier::external_body] fn from_u64(n: u64) -> F { F { x: n as f64 } }
    #[verifier::external_body] fn from_usize(n: usize) -> F { F { x: n as f64 } }
}
// `n as $number` of the macro: for every argument in kani c21
impl Number for u8 {
    open spec fn of_byte(n: u8) -> u8 { n }
    open spec fn of_int(n: int) -> u8 { n as u8 }
    fn from_u8(n: u8) -> u8 { n }
    #[verifier::external_body] fn from_u32(n: u32) -> u8 { n as u8 }
    #[verifier::external_body] fn from_u64(n: u64) -> u8 { n as u8 }
    #[verifier::external_body] fn from_usize(n: usize) -> u8 { n as u8 }
}
impl Number for u64 {
    open spec fn of_byte(n: u8) -> u64 { n as u64 }
    open spec fn of_int(n: int) -> u64 { n as u64 }
    fn from_u8(n: u8) -> u64 { n as u64 }
    fn from_u32(n: u32) -> u64 { n as u64 }
    fn from_u64(n: u64) -> u64 { n }
    fn from_usize(n: usize) -> u64 { n as u64 }
}
impl Float for F {
    open spec fn of_lit(c: real) -> F { flit(c) }
    #[verifier::external_body] fn lit(c: Ghost<real>) -> F { unimplemented!() }
}
} // verus!
