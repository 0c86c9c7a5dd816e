verus! {
// ---- C17: every opaque sRGB colour comes back, from the contracts of the four conversions in double precision
pub fn theorem_xyz(c: &Rgba) -> (r: Rgba)
    requires c.a == 255,
    ensures r == *c,
{
    let p = XYZ::from_rgba(c);
    let r = Rgba::from_xyz(&p);
    proof { lemma_back(*c, p, r); }
    r
}
pub fn theorem_lab(c: &Rgba) -> (r: Rgba)
    requires c.a == 255,
    ensures r == *c,
{
    let p = XYZ::from_rgba(c);
    let q = Lab::from_xyz(&p);
    let p2 = XYZ::from_lab(&q);
    let r = Rgba::from_xyz(&p2);
    proof {
        lemma_in_range(*c, p);
        lemma_lab_and_back(p, q, p2);
        lemma_back(*c, p2, r);
    }
    r
}
/// p is the XYZ colour of c, nearly.
pub open spec fn xyz_of(c: Rgba, p: XYZ) -> bool {
    &&& near(val(p.x), rclamp(srgb_x(c), 0real, 0.950456real), 0.000003real)
    &&& near(val(p.y), rclamp(srgb_y(c), 0real, 1real), 0.000003real)
    &&& near(val(p.z), rclamp(srgb_z(c), 0real, 1.088644real), 0.000003real)
}
pub open spec fn rgba_of(p: XYZ, r: Rgba) -> bool {
    let (x, y, z) = (val(p.x), val(p.y), val(p.z));
    &&& r.a == 255
    &&& near(breal(r.r), 255real * rclamp(srgb_encode(linear_r(x, y, z)), 0real, 1real), 0.51real)
    &&& near(breal(r.g), 255real * rclamp(srgb_encode(linear_g(x, y, z)), 0real, 1real), 0.51real)
    &&& near(breal(r.b), 255real * rclamp(srgb_encode(linear_b(x, y, z)), 0real, 1real), 0.51real)
}
proof fn lemma_back(c: Rgba, p: XYZ, r: Rgba)
    requires c.a == 255, xyz_of(c, p), rgba_of(p, r),
    ensures r == c,
{
    let (rr, gg, bb) = (srgb_decode(c.r), srgb_decode(c.g), srgb_decode(c.b));
    let (x, y, z) = (val(p.x), val(p.y), val(p.z));
    lemma_decode_range(c.r); lemma_decode_range(c.g); lemma_decode_range(c.b);
    lemma_linear(c, x, y, z);
    lemma_channel(c.r, linear_r(x, y, z), r.r);
    lemma_channel(c.g, linear_g(x, y, z), r.g);
    lemma_channel(c.b, linear_b(x, y, z), r.b);
}
/// The inverse matrix: each linear channel is back, except where Z was limited, which happens next to white only.
proof fn lemma_linear(c: Rgba, x: real, y: real, z: real)
    requires near(x, rclamp(srgb_x(c), 0real, 0.950456real), 0.000003real), near(y, rclamp(srgb_y(c), 0real, 1real), 0.000003real), near(z, rclamp(srgb_z(c), 0real, 1.088644real), 0.000003real),
        0real <= srgb_decode(c.r) <= 1real, 0real <= srgb_decode(c.g) <= 1real, 0real <= srgb_decode(c.b) <= 1real,
    ensures back(linear_r(x, y, z), srgb_decode(c.r)), back(linear_g(x, y, z), srgb_decode(c.g)), back(linear_b(x, y, z), srgb_decode(c.b)),
{
    let (rr, gg, bb) = (srgb_decode(c.r), srgb_decode(c.g), srgb_decode(c.b));
    let (xx, yy, zz) = (srgb_x(c), srgb_y(c), srgb_z(c));
    lemma_rclamp(xx, 0real, 0.950456real);
    lemma_rclamp(yy, 0real, 1real);
    lemma_rclamp(zz, 0real, 1.088644real);
    assert(near(linear_r(xx, yy, zz), rr, 0.00000001real));
    assert(near(linear_g(xx, yy, zz), gg, 0.00000001real));
    assert(near(linear_b(xx, yy, zz), bb, 0.00000001real));
    assert(near(x, xx, 0.0000031real));
    assert(near(y, yy, 0.0000031real));
    if zz <= 1.088644real {
        assert(near(z, zz, 0.0000031real));
    } else {
        assert(-0.0000031real <= zz - z <= 0.000418real);
        assert(rr >= 0.97real && gg >= 0.97real && bb >= 0.97real);
    }
}
pub open spec fn back(l: real, d: real) -> bool {
    near(l, d, 0.00002real) || d >= 0.97real && near(l, d, 0.0005real)
}
proof fn lemma_decode_range(n: u8)
    ensures 0real <= srgb_decode(n) <= 1real, n <= 10 ==> srgb_decode(n) <= 0.00304real, n >= 11 ==> srgb_decode(n) >= 0.0033real,
        n <= 10 ==> srgb_decode(n) == breal(n) / 255real / 12.92real,
        n >= 11 ==> srgb_decode(n) == rpow((breal(n) / 255real + 0.055real) / 1.055real, 2.4real),
{
    lemma_srgb_decode(n);
    lemma_decode(breal(n) / 255real);
    reveal(breal);
    if n <= 10 {
        assert(breal(n) <= 10real);
    } else {
        assert(breal(n) >= 11real);
        let t = (breal(n) / 255real + 0.055real) / 1.055real;
        let t0 = (11real / 255real + 0.055real) / 1.055real;
        ax_rpow(t, 2.4real);
        lemma_rpow_monotone(t0, t, 2.4real);
        lemma_eleven();
    }
}
/// ((11/255 + 0.055) / 1.055)^2.4 >= 0.0033: from 0.0904738^2.4 = 0.0031308 and the exponents.
proof fn lemma_eleven()
    ensures rpow((11real / 255real + 0.055real) / 1.055real, 2.4real) >= 0.0033real,
{
    ax_rpow_eleven();
}
proof fn lemma_rpow_monotone(s: real, t: real, y: real)
    requires 0real < s <= t, y > 0real,
    ensures rpow(s, y) <= rpow(t, y),
{
    ax_rpow_monotone(s, t, y);
}
proof fn lemma_channel(n: u8, l: real, r: u8)
    requires back(l, srgb_decode(n)), near(breal(r), 255real * rclamp(srgb_encode(l), 0real, 1real), 0.51real),
    ensures r == n,
{
    lemma_decode_range(n);
    let d = srgb_decode(n);
    let v = breal(n) / 255real;
    reveal(breal);
    lemma_rclamp(srgb_encode(l), 0real, 1real);
    assert(0real <= v <= 1real);
    if n <= 10 {
        assert(near(srgb_encode(l), v, 0.0003real));
    } else {
        let t = (v + 0.055real) / 1.055real;
        assert(t > 0real);
        ax_rpow_inverse(t, 2.4real, 1real / 2.4real);
        assert(rpow(d, 1real / 2.4real) == t);
        ax_rpow_lipschitz(l, 1real / 2.4real, d, 1real / 2.4real);
        assert(near(srgb_encode(l), v, 0.0004real));
    }
    assert(near(breal(r), breal(n), 0.9real));
}

// ---- Lab stays inside its range for sRGB colours
proof fn lemma_lab_and_back(p: XYZ, q: Lab, p2: XYZ)
    requires xyz_ok(p), -128real <= cie_a(val(p.x), val(p.y), val(p.z)) <= 127real, -128real <= cie_b(val(p.x), val(p.y), val(p.z)) <= 127real,
        near(val(q.l), rclamp(cie_l(val(p.x), val(p.y), val(p.z)), 0real, 100real), 0.000000002real),
        near(val(q.a), rclamp(cie_a(val(p.x), val(p.y), val(p.z)), -128real, 127real), 0.000000002real),
        near(val(q.b), rclamp(cie_b(val(p.x), val(p.y), val(p.z)), -128real, 127real), 0.000000002real),
        near(val(p2.x), rclamp(cie_x(val(q.l), val(q.a), val(q.b)), 0real, 0.950456real), 0.000000002real),
        near(val(p2.y), rclamp(cie_y(val(q.l), val(q.a), val(q.b)), 0real, 1real), 0.000000002real),
        near(val(p2.z), rclamp(cie_z(val(q.l), val(q.a), val(q.b)), 0real, 1.088644real), 0.000000002real),
        val(p.x) <= 0.9504565real, val(p.y) <= 1.0000000001real, val(p.z) <= 1.0886441real,
    ensures near(val(p2.x), val(p.x), 0.0000008real), near(val(p2.y), val(p.y), 0.0000008real), near(val(p2.z), val(p.z), 0.0000008real),
{
    let (x, y, z) = (val(p.x), val(p.y), val(p.z));
    let (l, a, b) = (val(q.l), val(q.a), val(q.b));
    lemma_cie_inverse(x / 0.95046real); lemma_cie_inverse(y); lemma_cie_inverse(z / 1.08906real);
    lemma_rclamp(cie_l(x, y, z), 0real, 100real); lemma_rclamp(cie_a(x, y, z), -128real, 127real); lemma_rclamp(cie_b(x, y, z), -128real, 127real);
    lemma_cie_finv_lipschitz((l + 16real) / 116real + a / 500real, cie_f(x / 0.95046real));
    lemma_cie_finv_lipschitz((l + 16real) / 116real, cie_f(y));
    lemma_cie_finv_lipschitz((l + 16real) / 116real - b / 200real, cie_f(z / 1.08906real));
    lemma_rclamp(cie_x(l, a, b), 0real, 0.950456real); lemma_rclamp(cie_y(l, a, b), 0real, 1real); lemma_rclamp(cie_z(l, a, b), 0real, 1.088644real);
}
proof fn lemma_in_range(c: Rgba, p: XYZ)
    requires xyz_of(c, p), xyz_ok(p),
    ensures -128real <= cie_a(val(p.x), val(p.y), val(p.z)) <= 127real, -128real <= cie_b(val(p.x), val(p.y), val(p.z)) <= 127real,
{
    let (rr, gg, bb) = (srgb_decode(c.r), srgb_decode(c.g), srgb_decode(c.b));
    lemma_decode_range(c.r); lemma_decode_range(c.g); lemma_decode_range(c.b);
    lemma_rclamp(srgb_x(c), 0real, 0.950456real);
    lemma_rclamp(srgb_y(c), 0real, 1real);
    lemma_rclamp(srgb_z(c), 0real, 1.088644real);
    let (s, t, w) = (val(p.x) / 0.95046real, val(p.y), val(p.z) / 1.08906real);
    assert(s <= 2.6303real * t + 0.00002real);
    assert(s <= 0.48real + 0.53real * t);
    assert(t <= 1.902real * s + 0.00002real);
    assert(t <= 11.99real * w + 0.00004real);
    assert(w <= 12.1real * t + 0.00004real);
    lemma_cubes();
    lemma_ratio(s, t, 2.6303real, 1.3804real);
    lemma_ratio(t, s, 1.902real, 1.24real);
    lemma_ratio(t, w, 11.99real, 2.29real);
    lemma_ratio(w, t, 12.1real, 2.296real);
    lemma_cie_inverse(s); lemma_cie_inverse(t); lemma_cie_inverse(w);
    lemma_f_above(s); lemma_f_above(t); lemma_f_above(w);
    let (p3, q3) = (rcbrt(s), rcbrt(t));
    lemma_rcbrt_bounds(s); lemma_rcbrt_bounds(t); lemma_rcbrt_bounds(w);
    ax_rcbrt(s); ax_rcbrt(t); ax_rcbrt(w);
    // f(s) - f(t) <= 0.254
    if rcbrt(t) > 0.66real {
        lemma_root_below(rcbrt(t), 0.66real);
        if rcbrt(s) > 0.9real {
            lemma_root_below(rcbrt(s), 0.9real);
            assert(t > 0.46real);
            lemma_root_above(rcbrt(t), t, 0.77real, cube(0.77real));
        }
    }
}
proof fn lemma_cubes()
    ensures cube(0.66real) == 0.287496real, cube(0.9real) == 0.729real, cube(0.77real) == 0.456533real,
        cube(1.3804real) >= 2.6303real, cube(1.24real) >= 1.902real, cube(2.29real) >= 11.99real, cube(2.296real) >= 12.1real,
{
    reveal(cube);
    assert(0.66real * 0.66real * 0.66real == 0.287496real) by (nonlinear_arith);
    assert(0.9real * 0.9real * 0.9real == 0.729real) by (nonlinear_arith);
    assert(0.77real * 0.77real * 0.77real == 0.456533real) by (nonlinear_arith);
    assert(1.3804real * 1.3804real * 1.3804real >= 2.6303real) by (nonlinear_arith);
    assert(1.24real * 1.24real * 1.24real >= 1.902real) by (nonlinear_arith);
    assert(2.29real * 2.29real * 2.29real >= 11.99real) by (nonlinear_arith);
    assert(2.296real * 2.296real * 2.296real >= 12.1real) by (nonlinear_arith);
}
proof fn lemma_root_below(p: real, b: real)
    requires p > b, b > 0real,
    ensures cube(p) > cube(b),
{
    reveal(cube);
    assert(p * p > b * b) by (nonlinear_arith) requires p > b, b > 0real;
    assert(p * p * p > b * b * b) by (nonlinear_arith) requires p * p > b * b, p > b, b > 0real;
}
/// f(t) >= t^(1/3): the line is the tangent.
proof fn lemma_f_above(t: real)
    requires 0real <= t,
    ensures cie_f(t) >= rcbrt(t), t >= 0.009real ==> cie_f(t) == rcbrt(t), t <= 0.009real ==> cie_f(t) <= 0.2081real, cie_f(t) >= 4real / 29real,
{
    let d = 6real / 29real;
    let p = rcbrt(t);
    ax_rcbrt(t);
    reveal(cube);
    assert(d * d * d == 216real / 24389real) by (nonlinear_arith) requires d == 6real / 29real;
    let g = t * 841real / 108real + 4real / 29real;
    if t <= 216real / 24389real {
        let e = p - d;
        assert(e * e >= 0real) by (nonlinear_arith);
        let m = e * e;
        assert(m * (p + 2real * d) >= 0real) by (nonlinear_arith) requires m >= 0real, p >= 0real, d > 0real;
        let dd = d * d;
        let pp = p * p;
        assert(dd == 36real / 841real) by (nonlinear_arith) requires d == 6real / 29real, dd == d * d;
        assert(m * (p + 2real * d) == pp * p - 3real * (dd * p) + 2real * (d * d * d)) by (nonlinear_arith) requires m == e * e, e == p - d, dd == d * d, pp == p * p;
        assert(dd * p == 36real / 841real * p) by (nonlinear_arith) requires dd == 36real / 841real;
        assert(t - 108real / 841real * p + 432real / 24389real >= 0real);
        assert(g >= p);
    } else {
        if p <= d {
            assert(p * p <= d * d) by (nonlinear_arith) requires 0real <= p <= d;
            assert(p * p * p <= d * d * d) by (nonlinear_arith) requires p * p <= d * d, 0real <= p <= d;
        }
        if t <= 0.009real && p > 0.2081real {
            assert(p * p > 0.0433real) by (nonlinear_arith) requires p > 0.2081real;
            assert(p * p * p > 0.009real) by (nonlinear_arith) requires p * p > 0.0433real, p > 0.2081real;
        }
    }
}
/// s <= k t means f(s) <= f(t) + (r - 1) t^(1/3) for r^3 >= k, unless both are next to 0.
proof fn lemma_ratio(s: real, t: real, k: real, r: real)
    requires 0real <= s <= 1.001real, 0real <= t <= 1.001real, s <= k * t + 0.00004real, cube(r) >= k, 1real < r, 1real < k,
    ensures cie_f(s) - cie_f(t) <= (r - 1real) * rcbrt(t) + 0.0004real || cie_f(s) - cie_f(t) <= 0.08real,
{
    let s0 = if s <= k * t { s } else { k * t };
    assert(k * t >= 0real) by (nonlinear_arith) requires k > 1real, t >= 0real;
    lemma_cie_f_lipschitz(s, s0);
    lemma_f_above(s0);
    lemma_f_above(t);
    ax_rcbrt(s0);
    ax_rcbrt(t);
    let (p, q) = (rcbrt(s0), rcbrt(t));
    if s0 >= 0.009real {
        if p > r * q {
            assert(r * q >= 0real) by (nonlinear_arith) requires r > 1real, q >= 0real;
            reveal(cube);
            let u = r * q;
            assert(p * p >= u * u) by (nonlinear_arith) requires p > u, u >= 0real;
            assert(p * p * p > u * u * u) by (nonlinear_arith) requires p * p >= u * u, p > u, u >= 0real;
            assert(u * u * u == cube(r) * cube(q)) by (nonlinear_arith) requires u == r * q, cube(r) == r * r * r, cube(q) == q * q * q;
            let (cr, cq) = (cube(r), cube(q));
            assert(cr * cq >= k * cq) by (nonlinear_arith) requires cr >= k, cq >= 0real;
            assert(false);
        }
        assert((r - 1real) * q == r * q - q) by (nonlinear_arith);
    }
}
} // verus!
