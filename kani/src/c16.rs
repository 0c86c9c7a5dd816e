//! C16: the constructors keep components in range, in-range components unchanged, others at the nearest bound.
use auto_palette::verif_hooks::*;

macro_rules! contracts { ($($t:ident),+) => { $( mod $t {
    use super::*;
    type T = $t;
    fn near(r: T, v: T, lo: T, hi: T) -> bool { if v < lo { r == lo } else if v > hi { r == hi } else { r == v } }

    #[kani::requires(!l.is_nan() && !a.is_nan() && !b.is_nan())]
    #[kani::ensures(|r: &Lab<T>| near(r.l, l, 0.0, 100.0) && near(r.a, a, -128.0, 127.0) && near(r.b, b, -128.0, 127.0))]
    #[kani::ensures(|r: &Lab<T>| 0.0 <= r.l && r.l <= 100.0 && -128.0 <= r.a && r.a <= 127.0 && -128.0 <= r.b && r.b <= 127.0)]
    fn lab(l: T, a: T, b: T) -> Lab<T> { Lab::new(l, a, b) }
    #[kani::proof_for_contract(lab)]
    fn c16_lab() { lab(kani::any(), kani::any(), kani::any()); }

    #[kani::requires(!x.is_nan() && !y.is_nan() && !z.is_nan())]
    #[kani::ensures(|r: &XYZ<T>| near(r.x, x, 0.0, 0.950456) && near(r.y, y, 0.0, 1.0) && near(r.z, z, 0.0, 1.088644))]
    #[kani::ensures(|r: &XYZ<T>| 0.0 <= r.x && r.x <= 0.950456 && 0.0 <= r.y && r.y <= 1.0 && 0.0 <= r.z && r.z <= 1.088644)]
    fn xyz(x: T, y: T, z: T) -> XYZ<T> { XYZ::new(x, y, z) }
    #[kani::proof_for_contract(xyz)]
    fn c16_xyz() { xyz(kani::any(), kani::any(), kani::any()); }
})+ } }
contracts!(f32, f64);

// Conversions end in the constructors; what has to hold is that no component is NaN on the way.
// libm: assumed contracts in place of cbrt, powf and powi.
macro_rules! conversions { ($($t:ident $m:ident),+) => { $( mod $m {
    use super::*;
    type T = $t;
    fn cbrt(x: T) -> T {
        let r: T = kani::any();
        kani::assume(if x.is_nan() { r.is_nan() } else if x >= 0.0 { r >= 0.0 && r <= 1.0 + x } else { r < 0.0 });
        r
    }
    fn powf(x: T, y: T) -> T {
        let r: T = kani::any();
        kani::assume(!(x >= 0.0 && y > 0.0) || (r >= 0.0 && (x > 1.0 || r <= 1.0)));
        r
    }
    fn powi(x: T, n: i32) -> T {
        let r: T = kani::any();
        kani::assume(x.is_nan() || n < 0 || !r.is_nan());
        r
    }
    fn lab_ok(c: &Lab<T>) -> bool { 0.0 <= c.l && c.l <= 100.0 && -128.0 <= c.a && c.a <= 127.0 && -128.0 <= c.b && c.b <= 127.0 }
    fn xyz_ok(c: &XYZ<T>) -> bool { 0.0 <= c.x && c.x <= 0.950456 && 0.0 <= c.y && c.y <= 1.0 && 0.0 <= c.z && c.z <= 1.088644 }

    #[kani::requires(xyz_ok(c))]
    #[kani::ensures(|r: &Lab<T>| lab_ok(r))]
    fn to_lab(c: &XYZ<T>) -> Lab<T> { Lab::from(c) }
    #[kani::proof_for_contract(to_lab)]
    #[kani::stub($t::cbrt, cbrt)]
    #[kani::stub($t::powi, powi)]
    fn c16_to_lab() { to_lab(&XYZ::new(kani::any(), kani::any(), kani::any())); }

    #[kani::requires(lab_ok(c))]
    #[kani::ensures(|r: &XYZ<T>| xyz_ok(r))]
    fn from_lab(c: &Lab<T>) -> XYZ<T> { XYZ::from(c) }
    #[kani::proof_for_contract(from_lab)]
    #[kani::stub($t::powi, powi)]
    fn c16_from_lab() { from_lab(&Lab::new(kani::any(), kani::any(), kani::any())); }

    #[kani::ensures(|r: &XYZ<T>| xyz_ok(r))]
    fn from_rgba(c: &Rgba) -> XYZ<T> { XYZ::from(c) }
    #[kani::proof_for_contract(from_rgba)]
    #[kani::stub($t::powf, powf)]
    fn c16_from_rgba() { from_rgba(&Rgba::new(kani::any(), kani::any(), kani::any(), kani::any())); }
})+ } }
conversions!(f32 f32_from, f64 f64_from);
