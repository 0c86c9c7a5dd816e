verus! {
impl XYZ {
// the same function for greys, closer
//@fn XYZ::from<Rgba> as from_grey
//@for C22
    requires rgba.r == rgba.g, rgba.g == rgba.b,
    ensures xyz_ok(r),
        near(val(r.x), rclamp(0.950456real * srgb_decode(rgba.r), 0real, 0.950456real), 0.0000072real),
        near(val(r.y), rclamp(srgb_decode(rgba.r), 0real, 1real), 0.0000072real),
        near(val(r.z), rclamp(1.089058real * srgb_decode(rgba.r), 0real, 1.088644real), 0.0000075real),
//@helper powf {ieee, lemma_decode, lemma_srgb_decode, lemma_byte_at_def}
    requires mid(arg0), -0.00001real <= val(arg0) <= 1.00001real,
    ensures mid(r), -0.00001real <= val(r) <= 1.0001real,
        forall|n: u8| #[trigger] byte_at(val(arg0), n) ==> near(val(r), srgb_decode(n), 0.0000042real),
//@at start
    broadcast use {linear_small, lemma_byte_at, lemma_rclamp_near};
//@end
}
// ---- consequences of the contracts
pub fn theorem_grey(c: &Rgba) -> (r: Lab)
    requires c.r == c.g && c.g == c.b,
    ensures near(val(r.a), 0real, 0.099real), near(val(r.b), 0real, 0.099real),
{
    let p = XYZ::from_grey(c);
    let r = Lab::from_xyz(&p);
    proof {
        let (x, y, z) = (val(p.x), val(p.y), val(p.z));
        lemma_cie_f_lipschitz(x / 0.95046real, y);
        lemma_cie_f_lipschitz(y, z / 1.08906real);
        lemma_rclamp(cie_a(x, y, z), -128real, 127real);
        lemma_rclamp(cie_b(x, y, z), -128real, 127real);
        let d = srgb_decode(c.r);
        lemma_rclamp(0.950456real * d, 0real, 0.950456real);
        lemma_rclamp(d, 0real, 1real);
        lemma_rclamp(1.089058real * d, 0real, 1.088644real);
    }
    r
}
pub fn theorem_inverse(p: &XYZ) -> (r: XYZ)
    requires xyz_ok(*p), -128real <= cie_a(val(p.x), val(p.y), val(p.z)) <= 127real, -128real <= cie_b(val(p.x), val(p.y), val(p.z)) <= 127real,
    ensures near(val(r.x), val(p.x), 0.0009real), near(val(r.y), val(p.y), 0.0009real), near(val(r.z), val(p.z), 0.0009real),
{
    let q = Lab::from_xyz(p);
    let r = XYZ::from_lab(&q);
    proof {
        let (x, y, z) = (val(p.x), val(p.y), val(p.z));
        let (l, a, b) = (val(q.l), val(q.a), val(q.b));
        lemma_cie_inverse(x / 0.95046real); lemma_cie_inverse(y); lemma_cie_inverse(z / 1.08906real);
        lemma_rclamp(cie_l(x, y, z), 0real, 100real); lemma_rclamp(cie_a(x, y, z), -128real, 127real); lemma_rclamp(cie_b(x, y, z), -128real, 127real);
        lemma_cie_finv_lipschitz((l + 16real) / 116real + a / 500real, cie_f(x / 0.95046real));
        lemma_cie_finv_lipschitz((l + 16real) / 116real, cie_f(y));
        lemma_cie_finv_lipschitz((l + 16real) / 116real - b / 200real, cie_f(z / 1.08906real));
        lemma_rclamp(cie_x(l, a, b), 0real, 0.950456real); lemma_rclamp(cie_y(l, a, b), 0real, 1real); lemma_rclamp(cie_z(l, a, b), 0real, 1.088644real);
    }
    r
}
} // verus!
