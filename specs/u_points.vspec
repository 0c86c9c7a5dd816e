//@source math/point.rs
//@include common.inc
//@include float.inc
fn main() {}
verus! {
/// IEEE equal to zero.
pub open spec fn is0(a: F) -> bool { !nan(a) && rank(a) == 0 }
//@generic F
//@struct Point2 #[derive(Clone, Copy)]
/// The components of the point.
pub open spec fn c2(p: Point2) -> Seq<F> { seq![p.0, p.1] }
impl Point2 {
//@fn Point2::new
    ensures r == Point2(x, y),
//@names x y
//@end
//@fn Point2::dim
    ensures r == 2,
//@names
//@end
//@fn Point2::to_vec
    ensures r@ == c2(*self),
//@names
//@end
//@fn Point2::zero
    ensures r == Point2(fzero(), fzero()),
//@names
//@end
//@fn Point2::is_zero
    ensures r == (is0(self.0) && is0(self.1)),
//@names
//@end
//@fn Point2::add_assign
    ensures *final(self) == Point2(fadd(old(self).0, rhs.0), fadd(old(self).1, rhs.1)),
//@names rhs
//@end
//@fn Point2::sub_assign
    ensures *final(self) == Point2(fsub(old(self).0, rhs.0), fsub(old(self).1, rhs.1)),
//@names rhs
//@end
//@fn Point2::mul_assign
    ensures *final(self) == Point2(fmul(old(self).0, rhs), fmul(old(self).1, rhs)),
//@names rhs
//@end
//@fn Point2::div_assign
    requires !is0(divisor),
    ensures *final(self) == Point2(fdiv(old(self).0, divisor), fdiv(old(self).1, divisor)),
//@names divisor
//@end
// dividing by zero is rejected: no such call returns
//@fn Point2::div_assign as div_assign_reject2
    requires is0(divisor),
    ensures false,
//@panic reject_
//@names divisor
//@end
}
impl AddSpecImpl for Point2 {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, rhs: Point2) -> bool { true }
    open spec fn add_spec(self, rhs: Point2) -> Point2 { Point2(fadd(self.0, rhs.0), fadd(self.1, rhs.1)) }
}
impl Add for Point2 {
    type Output = Self;
//@fn Point2::add
//@vis
//@vis
//@names rhs
//@end
}
impl SubSpecImpl for Point2 {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, rhs: Point2) -> bool { true }
    open spec fn sub_spec(self, rhs: Point2) -> Point2 { Point2(fsub(self.0, rhs.0), fsub(self.1, rhs.1)) }
}
impl Sub for Point2 {
    type Output = Self;
//@fn Point2::sub
//@vis
//@vis
//@names rhs
//@end
}
impl MulSpecImpl<F> for Point2 {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, rhs: F) -> bool { true }
    open spec fn mul_spec(self, rhs: F) -> Point2 { Point2(fmul(self.0, rhs), fmul(self.1, rhs)) }
}
impl Mul<F> for Point2 {
    type Output = Self;
//@fn Point2::mul
//@vis
//@vis
//@names rhs
//@end
}
impl DivSpecImpl<F> for Point2 {
    open spec fn obeys_div_spec() -> bool { true }
    open spec fn div_req(self, rhs: F) -> bool { !is0(rhs) }
    open spec fn div_spec(self, rhs: F) -> Point2 { Point2(fdiv(self.0, rhs), fdiv(self.1, rhs)) }
}
impl Div<F> for Point2 {
    type Output = Self;
//@fn Point2::div
//@vis
//@vis
//@names divisor
//@end
}
pub trait Reject2 { type Output; fn div_reject2(self, divisor: F) -> (r: Self::Output) where Self: Sized requires is0(divisor) ensures false; }
impl Reject2 for Point2 {
    type Output = Self;
//@fn Point2::div as div_reject2
//@vis
//@panic reject_
//@names divisor
//@end
}
impl IndexSpecImpl<usize> for Point2 {
    open spec fn index_req(&self, index: &usize) -> bool { *index < 2 }
}
impl core::ops::Index<usize> for Point2 {
    type Output = F;
//@fn Point2::index
    ensures *r == c2(*self)[index as int],
//@vis
//@names index
//@end
}

//@struct Point3 #[derive(Clone, Copy)]
/// The components of the point.
pub open spec fn c3(p: Point3) -> Seq<F> { seq![p.0, p.1, p.2] }
impl Point3 {
//@fn Point3::new
    ensures r == Point3(x, y, z),
//@names x y z
//@end
//@fn Point3::dim
    ensures r == 3,
//@names
//@end
//@fn Point3::to_vec
    ensures r@ == c3(*self),
//@names
//@end
//@fn Point3::zero
    ensures r == Point3(fzero(), fzero(), fzero()),
//@names
//@end
//@fn Point3::is_zero
    ensures r == (is0(self.0) && is0(self.1) && is0(self.2)),
//@names
//@end
//@fn Point3::add_assign
    ensures *final(self) == Point3(fadd(old(self).0, rhs.0), fadd(old(self).1, rhs.1), fadd(old(self).2, rhs.2)),
//@names rhs
//@end
//@fn Point3::sub_assign
    ensures *final(self) == Point3(fsub(old(self).0, rhs.0), fsub(old(self).1, rhs.1), fsub(old(self).2, rhs.2)),
//@names rhs
//@end
//@fn Point3::mul_assign
    ensures *final(self) == Point3(fmul(old(self).0, rhs), fmul(old(self).1, rhs), fmul(old(self).2, rhs)),
//@names rhs
//@end
//@fn Point3::div_assign
    requires !is0(divisor),
    ensures *final(self) == Point3(fdiv(old(self).0, divisor), fdiv(old(self).1, divisor), fdiv(old(self).2, divisor)),
//@names divisor
//@end
// dividing by zero is rejected: no such call returns
//@fn Point3::div_assign as div_assign_reject3
    requires is0(divisor),
    ensures false,
//@panic reject_
//@names divisor
//@end
}
impl AddSpecImpl for Point3 {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, rhs: Point3) -> bool { true }
    open spec fn add_spec(self, rhs: Point3) -> Point3 { Point3(fadd(self.0, rhs.0), fadd(self.1, rhs.1), fadd(self.2, rhs.2)) }
}
impl Add for Point3 {
    type Output = Self;
//@fn Point3::add
//@vis
//@vis
//@names rhs
//@end
}
impl SubSpecImpl for Point3 {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, rhs: Point3) -> bool { true }
    open spec fn sub_spec(self, rhs: Point3) -> Point3 { Point3(fsub(self.0, rhs.0), fsub(self.1, rhs.1), fsub(self.2, rhs.2)) }
}
impl Sub for Point3 {
    type Output = Self;
//@fn Point3::sub
//@vis
//@vis
//@names rhs
//@end
}
impl MulSpecImpl<F> for Point3 {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, rhs: F) -> bool { true }
    open spec fn mul_spec(self, rhs: F) -> Point3 { Point3(fmul(self.0, rhs), fmul(self.1, rhs), fmul(self.2, rhs)) }
}
impl Mul<F> for Point3 {
    type Output = Self;
//@fn Point3::mul
//@vis
//@vis
//@names rhs
//@end
}
impl DivSpecImpl<F> for Point3 {
    open spec fn obeys_div_spec() -> bool { true }
    open spec fn div_req(self, rhs: F) -> bool { !is0(rhs) }
    open spec fn div_spec(self, rhs: F) -> Point3 { Point3(fdiv(self.0, rhs), fdiv(self.1, rhs), fdiv(self.2, rhs)) }
}
impl Div<F> for Point3 {
    type Output = Self;
//@fn Point3::div
//@vis
//@vis
//@names divisor
//@end
}
pub trait Reject3 { type Output; fn div_reject3(self, divisor: F) -> (r: Self::Output) where Self: Sized requires is0(divisor) ensures false; }
impl Reject3 for Point3 {
    type Output = Self;
//@fn Point3::div as div_reject3
//@vis
//@panic reject_
//@names divisor
//@end
}
impl IndexSpecImpl<usize> for Point3 {
    open spec fn index_req(&self, index: &usize) -> bool { *index < 3 }
}
impl core::ops::Index<usize> for Point3 {
    type Output = F;
//@fn Point3::index
    ensures *r == c3(*self)[index as int],
//@vis
//@names index
//@end
}

//@struct Point5 #[derive(Clone, Copy)]
/// The components of the point.
pub open spec fn c5(p: Point5) -> Seq<F> { seq![p.0, p.1, p.2, p.3, p.4] }
impl Point5 {
//@fn Point5::new
    ensures r == Point5(v, w, x, y, z),
//@names v w x y z
//@end
//@fn Point5::dim
    ensures r == 5,
//@names
//@end
//@fn Point5::to_vec
    ensures r@ == c5(*self),
//@names
//@end
//@fn Point5::zero
    ensures r == Point5(fzero(), fzero(), fzero(), fzero(), fzero()),
//@names
//@end
//@fn Point5::is_zero
    ensures r == (is0(self.0) && is0(self.1) && is0(self.2) && is0(self.3) && is0(self.4)),
//@names
//@end
//@fn Point5::add_assign
    ensures *final(self) == Point5(fadd(old(self).0, rhs.0), fadd(old(self).1, rhs.1), fadd(old(self).2, rhs.2), fadd(old(self).3, rhs.3), fadd(old(self).4, rhs.4)),
//@names rhs
//@end
//@fn Point5::sub_assign
    ensures *final(self) == Point5(fsub(old(self).0, rhs.0), fsub(old(self).1, rhs.1), fsub(old(self).2, rhs.2), fsub(old(self).3, rhs.3), fsub(old(self).4, rhs.4)),
//@names rhs
//@end
//@fn Point5::mul_assign
    ensures *final(self) == Point5(fmul(old(self).0, rhs), fmul(old(self).1, rhs), fmul(old(self).2, rhs), fmul(old(self).3, rhs), fmul(old(self).4, rhs)),
//@names rhs
//@end
//@fn Point5::div_assign
    requires !is0(divisor),
    ensures *final(self) == Point5(fdiv(old(self).0, divisor), fdiv(old(self).1, divisor), fdiv(old(self).2, divisor), fdiv(old(self).3, divisor), fdiv(old(self).4, divisor)),
//@names divisor
//@end
// dividing by zero is rejected: no such call returns
//@fn Point5::div_assign as div_assign_reject5
    requires is0(divisor),
    ensures false,
//@panic reject_
//@names divisor
//@end
}
impl AddSpecImpl for Point5 {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, rhs: Point5) -> bool { true }
    open spec fn add_spec(self, rhs: Point5) -> Point5 { Point5(fadd(self.0, rhs.0), fadd(self.1, rhs.1), fadd(self.2, rhs.2), fadd(self.3, rhs.3), fadd(self.4, rhs.4)) }
}
impl Add for Point5 {
    type Output = Self;
//@fn Point5::add
//@vis
//@vis
//@names rhs
//@end
}
impl SubSpecImpl for Point5 {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, rhs: Point5) -> bool { true }
    open spec fn sub_spec(self, rhs: Point5) -> Point5 { Point5(fsub(self.0, rhs.0), fsub(self.1, rhs.1), fsub(self.2, rhs.2), fsub(self.3, rhs.3), fsub(self.4, rhs.4)) }
}
impl Sub for Point5 {
    type Output = Self;
//@fn Point5::sub
//@vis
//@vis
//@names rhs
//@end
}
impl MulSpecImpl<F> for Point5 {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, rhs: F) -> bool { true }
    open spec fn mul_spec(self, rhs: F) -> Point5 { Point5(fmul(self.0, rhs), fmul(self.1, rhs), fmul(self.2, rhs), fmul(self.3, rhs), fmul(self.4, rhs)) }
}
impl Mul<F> for Point5 {
    type Output = Self;
//@fn Point5::mul
//@vis
//@vis
//@names rhs
//@end
}
impl DivSpecImpl<F> for Point5 {
    open spec fn obeys_div_spec() -> bool { true }
    open spec fn div_req(self, rhs: F) -> bool { !is0(rhs) }
    open spec fn div_spec(self, rhs: F) -> Point5 { Point5(fdiv(self.0, rhs), fdiv(self.1, rhs), fdiv(self.2, rhs), fdiv(self.3, rhs), fdiv(self.4, rhs)) }
}
impl Div<F> for Point5 {
    type Output = Self;
//@fn Point5::div
//@vis
//@vis
//@names divisor
//@end
}
pub trait Reject5 { type Output; fn div_reject5(self, divisor: F) -> (r: Self::Output) where Self: Sized requires is0(divisor) ensures false; }
impl Reject5 for Point5 {
    type Output = Self;
//@fn Point5::div as div_reject5
//@vis
//@panic reject_
//@names divisor
//@end
}
impl IndexSpecImpl<usize> for Point5 {
    open spec fn index_req(&self, index: &usize) -> bool { *index < 5 }
}
impl core::ops::Index<usize> for Point5 {
    type Output = F;
//@fn Point5::index
    ensures *r == c5(*self)[index as int],
//@vis
//@names index
//@end
}

} // verus!
