verus! {
//@generic F W
//@subst W D65
//@inline_closures
//@literals
//@turbofish
impl F {
//@fn f64::clamp
    requires mid(self), mid(min), mid(max), val(min) <= val(max),
    ensures r == self || r == min || r == max, mid(r), val(r) == rclamp(val(self), val(min), val(max)),
        integral(self) && integral(min) && integral(max) ==> integral(r),
//@at start
    broadcast use lemma_rclamp;
//@end
}
//@struct D65
//@struct Lab
//@struct XYZ
//@struct Rgba
impl D65 {
//@fn D65::x
//@for C22 C17
    ensures r == flit(0.95046real),
//@end
//@fn D65::y
//@for C22 C17
    ensures r == flit(1real),
//@end
//@fn D65::z
//@for C22 C17
    ensures r == flit(1.08906real),
//@end
}

// ---- what the standards say, over the real numbers
/// CIE 1976.
pub open spec fn cie_f(t: real) -> real {
    if t > (6real / 29real) * (6real / 29real) * (6real / 29real) { rcbrt(t) } else { t * 841real / 108real + 4real / 29real }
}
pub open spec fn cie_finv(t: real) -> real {
    if t > 6real / 29real { cube(t) } else { (t - 4real / 29real) * 108real / 841real }
}
pub open spec fn cie_l(x: real, y: real, z: real) -> real { 116real * cie_f(y) - 16real }
pub open spec fn cie_a(x: real, y: real, z: real) -> real { 500real * (cie_f(x / 0.95046real) - cie_f(y)) }
pub open spec fn cie_b(x: real, y: real, z: real) -> real { 200real * (cie_f(y) - cie_f(z / 1.08906real)) }
pub open spec fn cie_x(l: real, a: real, b: real) -> real { 0.95046real * cie_finv((l + 16real) / 116real + a / 500real) }
pub open spec fn cie_y(l: real, a: real, b: real) -> real { cie_finv((l + 16real) / 116real) }
pub open spec fn cie_z(l: real, a: real, b: real) -> real { 1.08906real * cie_finv((l + 16real) / 116real - b / 200real) }
/// IEC 61966-2-1.
#[verifier::opaque]
pub open spec fn srgb_decode(n: u8) -> real { decode(breal(n) / 255real) }
#[verifier::opaque]
pub open spec fn decode(v: real) -> real {
    if v <= 0.04045real { v / 12.92real } else { rpow((v + 0.055real) / 1.055real, 2.4real) }
}
pub open spec fn srgb_encode(l: real) -> real {
    if l <= 0.0031308real { 12.92real * l } else { 1.055real * rpow(l, 1real / 2.4real) - 0.055real }
}
pub open spec fn srgb_x(c: Rgba) -> real { 0.4123907993real * srgb_decode(c.r) + 0.3575843394real * srgb_decode(c.g) + 0.1804807884real * srgb_decode(c.b) }
pub open spec fn srgb_y(c: Rgba) -> real { 0.2126390059real * srgb_decode(c.r) + 0.7151686788real * srgb_decode(c.g) + 0.0721923154real * srgb_decode(c.b) }
pub open spec fn srgb_z(c: Rgba) -> real { 0.0193308187real * srgb_decode(c.r) + 0.1191947798real * srgb_decode(c.g) + 0.9505321522real * srgb_decode(c.b) }
pub open spec fn linear_r(x: real, y: real, z: real) -> real { 3.2409699419real * x - 1.5373831776real * y - 0.4986107603real * z }
pub open spec fn linear_g(x: real, y: real, z: real) -> real { -0.9692436363real * x + 1.8759675015real * y + 0.0415550574real * z }
pub open spec fn linear_b(x: real, y: real, z: real) -> real { 0.0556300797real * x - 0.2039769589real * y + 1.0569715142real * z }

/// The documented ranges, up to the rounding of the bounds.
pub open spec fn lab_ok(c: Lab) -> bool {
    &&& mid(c.l) && mid(c.a) && mid(c.b)
    &&& 0real <= val(c.l) && near(val(c.l), rclamp(val(c.l), 0real, 100real), $LABBreal)
    &&& near(val(c.a), rclamp(val(c.a), -128real, 127real), $LABBreal)
    &&& near(val(c.b), rclamp(val(c.b), -128real, 127real), $LABBreal)
}
pub open spec fn xyz_ok(c: XYZ) -> bool {
    &&& mid(c.x) && mid(c.y) && mid(c.z)
    &&& 0real <= val(c.x) <= $XMAXreal && 0real <= val(c.y) <= $YMAXreal && 0real <= val(c.z) <= $ZMAXreal
}
impl Lab {
//@fn Lab::min_l
//@for C22 C17
    ensures r == T::of_lit(0real),
//@end
//@fn Lab::max_l
//@for C22 C17
    ensures r == T::of_lit(100real),
//@end
//@fn Lab::min_a
//@for C22 C17
    ensures r == T::of_lit(-128real),
//@end
//@fn Lab::max_a
//@for C22 C17
    ensures r == T::of_lit(127real),
//@end
//@fn Lab::min_b
//@for C22 C17
    ensures r == T::of_lit(-128real),
//@end
//@fn Lab::max_b
//@for C22 C17
    ensures r == T::of_lit(127real),
//@end
//@fn Lab::new
//@for C22 C17
    requires mid(l), mid(a), mid(b),
    ensures lab_ok(r),
        near(val(r.l), rclamp(val(l), 0real, 100real), $LABBreal),
        near(val(r.a), rclamp(val(a), -128real, 127real), $LABBreal),
        near(val(r.b), rclamp(val(b), -128real, 127real), $LABBreal),
//@at start
    broadcast use {linear, lemma_rclamp};
//@end
//@fn Lab::from as from_xyz
//@for C22 C17
    requires xyz_ok(*xyz),
    ensures lab_ok(r),
        near(val(r.l), rclamp(cie_l(val(xyz.x), val(xyz.y), val(xyz.z)), 0real, 100real), $LABLreal),
        near(val(r.a), rclamp(cie_a(val(xyz.x), val(xyz.y), val(xyz.z)), -128real, 127real), $LABAreal),
        near(val(r.b), rclamp(cie_b(val(xyz.x), val(xyz.y), val(xyz.z)), -128real, 127real), $LABCreal),
//@helper cbrt,powf {ieee, lemma_rcbrt_lipschitz, lemma_rcbrt_bounds, lemma_rcbrt_threshold}
    requires mid(arg0), 0real <= val(arg0) <= 1.001real,
    ensures mid(r), 0real <= val(r) <= 1.02real,
        forall|t: real| near(val(arg0), t, $FINreal) && 0real <= t <= 1.001real ==> near(val(r), #[trigger] cie_f(t), $FOUTreal),
//@at start
    broadcast use {linear, lemma_rclamp, lemma_rclamp_near};
//@end
}
impl XYZ {
//@fn XYZ::min_x
//@for C22 C17
    ensures r == T::of_lit(0real),
//@end
//@fn XYZ::max_x
//@for C22 C17
    ensures r == T::of_lit(0.950456real),
//@end
//@fn XYZ::min_y
//@for C22 C17
    ensures r == T::of_lit(0real),
//@end
//@fn XYZ::max_y
//@for C22 C17
    ensures r == T::of_lit(1real),
//@end
//@fn XYZ::min_z
//@for C22 C17
    ensures r == T::of_lit(0real),
//@end
//@fn XYZ::max_z
//@for C22 C17
    ensures r == T::of_lit(1.088644real),
//@end
//@fn XYZ::new
//@for C22 C17
    requires mid(x), mid(y), mid(z),
    ensures xyz_ok(r),
        near(val(r.x), rclamp(val(x), 0real, 0.950456real), $XYZBreal),
        near(val(r.y), rclamp(val(y), 0real, 1real), $XYZBreal),
        near(val(r.z), rclamp(val(z), 0real, 1.088644real), $XYZBreal),
//@at start
    broadcast use {linear, lemma_rclamp};
//@end
//@fn XYZ::from<Rgba> as from_rgba
//@for C22 C17
    ensures xyz_ok(r),
        near(val(r.x), rclamp(srgb_x(*rgba), 0real, 0.950456real), $SRGBreal),
        near(val(r.y), rclamp(srgb_y(*rgba), 0real, 1real), $SRGBreal),
        near(val(r.z), rclamp(srgb_z(*rgba), 0real, 1.088644real), $SRGBreal),
//@helper powf {ieee, lemma_decode, lemma_srgb_decode, lemma_byte_at_def}
    requires mid(arg0), -0.00001real <= val(arg0) <= 1.00001real,
    ensures mid(r), -0.00001real <= val(r) <= 1.0001real,
        forall|n: u8| #[trigger] byte_at(val(arg0), n) ==> near(val(r), srgb_decode(n), $DECOUTreal),
//@at start
    broadcast use {linear_small, lemma_byte_at, lemma_rclamp_near};
//@end
//@fn XYZ::from<Lab> as from_lab
//@for C22 C17
    requires lab_ok(*lab),
    ensures xyz_ok(r),
        near(val(r.x), rclamp(cie_x(val(lab.l), val(lab.a), val(lab.b)), 0real, 0.950456real), $FROMLABreal),
        near(val(r.y), rclamp(cie_y(val(lab.l), val(lab.a), val(lab.b)), 0real, 1real), $FROMLABreal),
        near(val(r.z), rclamp(cie_z(val(lab.l), val(lab.a), val(lab.b)), 0real, 1.088644real), $FROMLABreal),
//@helper powi,cube {ieee, lemma_cube_lipschitz, lemma_cube_threshold}
    requires mid(arg0), -1.8real <= val(arg0) <= 1.8real,
    ensures mid(r), -25real <= val(r) <= 25real,
        forall|t: real| near(val(arg0), t, $INVINreal) && -1.8real <= t <= 1.8real ==> near(val(r), #[trigger] cie_finv(t), $INVOUTreal),
//@at start
    broadcast use {linear, lemma_rclamp, lemma_rclamp_near};
//@end
}
impl Rgba {
//@struct Rgba::MAX
//@fn Rgba::max_value
    ensures r == T::of_byte(255),
//@end
//@fn Rgba::r
    ensures r == T::of_byte(self.r),
//@end
//@fn Rgba::g
    ensures r == T::of_byte(self.g),
//@end
//@fn Rgba::b
    ensures r == T::of_byte(self.b),
//@end
//@fn Rgba::a
    ensures r == T::of_byte(self.a),
//@end
//@fn Rgba::from as from_xyz
//@for C18 C17
    requires xyz_ok(*xyz),
    ensures r.a == 255,
        near(breal(r.r), 255real * rclamp(srgb_encode(linear_r(val(xyz.x), val(xyz.y), val(xyz.z))), 0real, 1real), $CHANreal),
        near(breal(r.g), 255real * rclamp(srgb_encode(linear_g(val(xyz.x), val(xyz.y), val(xyz.z))), 0real, 1real), $CHANreal),
        near(breal(r.b), 255real * rclamp(srgb_encode(linear_b(val(xyz.x), val(xyz.y), val(xyz.z))), 0real, 1real), $CHANreal),
//@helper powf {ieee, lemma_rclamp}
    requires mid(arg0), -4real <= val(arg0) <= 4real,
    ensures mid(r), -60real <= val(r) <= 5real,
        forall|t: real| near(val(arg0), t, $ENCINreal) && -4real <= t <= 4real ==> near(rclamp(val(r), 0real, 1real), rclamp(#[trigger] srgb_encode(t), 0real, 1real), $ENCOUTreal),
//@at start
    broadcast use {linear, ax_round, lemma_rclamp_bounds, lemma_rclamp_scale, lemma_rclamp_near};
//@end
}

pub broadcast proof fn lemma_decode(v: real)
    ensures #[trigger] decode(v) == (if v <= 0.04045real { v / 12.92real } else { rpow((v + 0.055real) / 1.055real, 2.4real) }),
{
    reveal(decode);
}
pub broadcast proof fn lemma_srgb_decode(n: u8)
    ensures #[trigger] srgb_decode(n) == decode(breal(n) / 255real), 0real <= breal(n) / 255real <= 1real, !near(breal(n) / 255real, 0.04045real, 0.00001real),
{
    reveal(srgb_decode);
    reveal(breal);
    assert(n <= 10 || n >= 11);
    assert(n <= 10 ==> n as real <= 10real);
    assert(n >= 11 ==> n as real >= 11real);
}

/// v is n / 255, up to rounding
#[verifier::opaque]
pub open spec fn byte_at(v: real, n: u8) -> bool { near(v, breal(n) / 255real, $BYTEreal) }
pub broadcast proof fn lemma_byte_at_def(v: real, n: u8)
    ensures #[trigger] byte_at(v, n) == near(v, breal(n) / 255real, $BYTEreal),
{
    reveal(byte_at);
}
/// The ways to scale a byte.
pub broadcast proof fn lemma_byte_at_div(n: u8)
    ensures byte_at(val(#[trigger] fdiv(fbyte(n), fbyte(255))), n), fin(fdiv(fbyte(n), fbyte(255))), -0.00001real <= val(fdiv(fbyte(n), fbyte(255))) <= 1.00001real,
{
    broadcast use ieee;
    reveal(byte_at);
}
pub broadcast proof fn lemma_byte_at_div_lit(n: u8, c: real)
    requires c == 255real,
    ensures byte_at(val(#[trigger] fdiv(fbyte(n), flit(c))), n),
{
    broadcast use ieee;
    reveal(byte_at);
}
pub broadcast proof fn lemma_byte_at_mul(n: u8, c: real)
    requires near(c, 1real / 255real, $BYTECreal),
    ensures byte_at(val(#[trigger] fmul(fbyte(n), flit(c))), n),
{
    broadcast use ieee;
    reveal(byte_at);
    lemma_scale(breal(n), c);
}
pub broadcast proof fn lemma_byte_at_mul_left(n: u8, c: real)
    requires near(c, 1real / 255real, $BYTECreal),
    ensures byte_at(val(#[trigger] fmul(flit(c), fbyte(n))), n),
{
    broadcast use ieee;
    reveal(byte_at);
    lemma_scale(breal(n), c);
}
proof fn lemma_scale(x: real, c: real)
    requires near(c, 1real / 255real, $BYTECreal), 0real <= x <= 255real,
    ensures near(c * x, x / 255real, 300real * $BYTECreal), 0real <= c * x <= 2real,
{
    let d = c - 1real / 255real;
    assert(c * x == x / 255real + d * x) by (nonlinear_arith) requires d == c - 1real / 255real;
    assert(near(d * x, 0real, 300real * $BYTECreal)) by (nonlinear_arith) requires near(d, 0real, $BYTECreal), 0real <= x <= 255real;
    assert(c * x >= 0real) by (nonlinear_arith) requires c >= 0real, x >= 0real;
}
pub broadcast group lemma_byte_at { lemma_byte_at_div, lemma_byte_at_div_lit, lemma_byte_at_mul, lemma_byte_at_mul_left }

proof fn lemma_cie_f_lipschitz(s: real, t: real)
    requires 0real <= s <= 1.001real, 0real <= t <= 1.001real,
    ensures near(cie_f(s), cie_f(t), 8.34real * absr(s - t)),
        s >= 0.9real && t >= 0.9real ==> near(cie_f(s), cie_f(t), 0.5real * absr(s - t)),
{
    let e = 216real / 24389real;
    assert((6real / 29real) * (6real / 29real) * (6real / 29real) == e) by (nonlinear_arith) requires e == 216real / 24389real;
    if s > e && t > e { lemma_rcbrt_lipschitz(s, t); }
    else if s > e { lemma_rcbrt_threshold(s); }
    else if t > e { lemma_rcbrt_threshold(t); }
}
proof fn lemma_cie_inverse(t: real)
    requires 0real <= t <= 1.001real,
    ensures cie_finv(cie_f(t)) == t, 4real / 29real <= cie_f(t), t <= 1real ==> cie_f(t) <= 1real, t >= 1real ==> cie_f(t) <= t,
{
    let e = 216real / 24389real;
    let d = 6real / 29real;
    reveal(cube);
    assert(d * d * d == e) by (nonlinear_arith) requires e == 216real / 24389real, d == 6real / 29real;
    lemma_rcbrt_bounds(t);
    ax_rcbrt(t);
    if t > e {
        let p = rcbrt(t);
        if p <= d {
            assert(p * p <= d * d) by (nonlinear_arith) requires 0real <= p <= d;
            assert(p * p * p <= d * d * d) by (nonlinear_arith) requires p * p <= d * d, 0real <= p <= d;
        }
        if p > 1real {
            assert(p * p > 1real) by (nonlinear_arith) requires p > 1real;
            assert(p * p * p > p) by (nonlinear_arith) requires p * p > 1real, p > 1real;
        }
    }
}
proof fn lemma_cie_finv_lipschitz(s: real, t: real)
    requires -2real <= s <= 2real, -2real <= t <= 2real,
    ensures near(cie_finv(s), cie_finv(t), 12real * absr(s - t)),
{
    let d = 6real / 29real;
    if s > d && t > d { lemma_cube_lipschitz(s, t); }
    else if s > d { lemma_cube_threshold(s); }
    else if t > d { lemma_cube_threshold(t); }
}

// ---- the real functions behind the conversions
pub broadcast proof fn lemma_rcbrt_lipschitz(s: real, t: real)
    requires 0.008real <= s, 0.008real <= t,
    ensures near(#[trigger] rcbrt(s), #[trigger] rcbrt(t), absr(s - t) * 8.34real),
        s >= 0.9real && t >= 0.9real ==> near(rcbrt(s), rcbrt(t), absr(s - t) * 0.5real),
{
    let (p, q) = (rcbrt(s), rcbrt(t));
    ax_rcbrt(s); ax_rcbrt(t);
    lemma_small_cubes();
    lemma_root_above(p, s, 0.2real, 0.008real);
    lemma_root_above(q, t, 0.2real, 0.008real);
    lemma_quotient(p, q, 0.2real, 0.12real, 8.34real);
    if s >= 0.9real && t >= 0.9real {
        lemma_root_above(p, s, 0.9real, 0.729real);
        lemma_root_above(q, t, 0.9real, 0.729real);
        lemma_quotient(p, q, 0.9real, 2.43real, 0.5real);
    }
}
proof fn lemma_small_cubes()
    ensures cube(0.2real) == 0.008real, cube(0.9real) == 0.729real,
{
    reveal(cube);
    assert(0.2real * 0.2real * 0.2real == 0.008real) by (nonlinear_arith);
    assert(0.9real * 0.9real * 0.9real == 0.729real) by (nonlinear_arith);
}
proof fn lemma_root_above(p: real, s: real, b: real, b3: real)
    requires p >= 0real, cube(p) == s, b > 0real, b3 == cube(b), s >= b3,
    ensures p >= b,
{
    reveal(cube);
    if p < b {
        assert(p * p <= b * b) by (nonlinear_arith) requires 0real <= p < b;
        assert(p * p * p <= b * b * p) by (nonlinear_arith) requires p * p <= b * b, p >= 0real;
        assert(b * b * p < b * b * b) by (nonlinear_arith) requires p < b, b > 0real;
    }
}
/// |p - q| <= |p^3 - q^3| / (3 b^2) for p, q >= b
proof fn lemma_quotient(p: real, q: real, b: real, d: real, k: real)
    requires p >= b, q >= b, b > 0real, d == 3real * b * b, d > 0real, k * d >= 1real,
    ensures near(p, q, absr(cube(p) - cube(q)) * k),
{
    reveal(cube);
    let m = p * p + p * q + q * q;
    assert(m >= d) by (nonlinear_arith) requires p >= b, q >= b, b > 0real, m == p * p + p * q + q * q, d == 3real * b * b;
    assert(p * p * p - q * q * q == (p - q) * m) by (nonlinear_arith) requires m == p * p + p * q + q * q;
    let e = p - q;
    assert(k > 0real) by (nonlinear_arith) requires k * d >= 1real, d > 0real;
    assert(m * k >= 1real) by (nonlinear_arith) requires m >= d, k * d >= 1real, k > 0real;
    let c = p * p * p - q * q * q;
    assert(c * k == e * (m * k)) by (nonlinear_arith) requires c == e * m;
    let f = m * k;
    if e >= 0real {
        assert(e * f >= e) by (nonlinear_arith) requires e >= 0real, f >= 1real;
    } else {
        assert(e * f <= e) by (nonlinear_arith) requires e < 0real, f >= 1real;
    }
    assert(absr(c) * k == absr(c * k)) by (nonlinear_arith) requires k > 0real;
}
pub broadcast proof fn lemma_rcbrt_bounds(t: real)
    requires 0real <= t <= 1.01real,
    ensures 0real <= #[trigger] rcbrt(t) <= 1.01real,
{
    ax_rcbrt(t);
    reveal(cube);
    let p = rcbrt(t);
    if p > 1.01real {
        assert(p * p > 1.02real) by (nonlinear_arith) requires p > 1.01real;
        assert(p * p * p > 1.02real) by (nonlinear_arith) requires p * p > 1.02real, p > 1.01real;
    }
}
/// At the threshold both branches give 6/29.
pub broadcast proof fn lemma_rcbrt_threshold(t: real)
    requires 0.008real <= t,
    ensures near(#[trigger] rcbrt(t), 6real / 29real, 8.34real * absr(t - 216real / 24389real)),
{
    let e = 6real / 29real;
    reveal(cube);
    assert(e * e * e == 216real / 24389real) by (nonlinear_arith) requires e == 6real / 29real;
    ax_rcbrt(t);
    lemma_small_cubes();
    lemma_root_above(rcbrt(t), t, 0.2real, 0.008real);
    lemma_quotient(rcbrt(t), e, 0.2real, 0.12real, 8.34real);
}
pub broadcast proof fn lemma_cube_lipschitz(s: real, t: real)
    requires -2real <= s <= 2real, -2real <= t <= 2real,
    ensures near(#[trigger] cube(s), #[trigger] cube(t), 12real * absr(s - t)),
{
    reveal(cube);
    let m = s * s + s * t + t * t;
    assert(0real <= m <= 12real) by (nonlinear_arith) requires -2real <= s <= 2real, -2real <= t <= 2real, m == s * s + s * t + t * t;
    assert(s * s * s - t * t * t == (s - t) * m) by (nonlinear_arith) requires m == s * s + s * t + t * t;
    let e = s - t;
    if e >= 0real {
        assert(0real <= e * m <= 12real * e) by (nonlinear_arith) requires e >= 0real, 0real <= m <= 12real;
    } else {
        assert(12real * e <= e * m <= 0real) by (nonlinear_arith) requires e < 0real, 0real <= m <= 12real;
    }
}
pub broadcast proof fn lemma_cube_threshold(t: real)
    requires -2real <= t <= 2real,
    ensures near(#[trigger] cube(t), 216real / 24389real, 12real * absr(t - 6real / 29real)),
{
    let e = 6real / 29real;
    lemma_cube_lipschitz(t, e);
    reveal(cube);
    assert(e * e * e == 216real / 24389real) by (nonlinear_arith) requires e == 6real / 29real;
}
} // verus!
