use crate::gen::*;
use crate::{Info, Prop, Res};
use auto_palette::verif_hooks::*;

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C16", rule: "constructor inputs from random bit patterns, bounds and their neighbours, and conversions of random colours, f32 and f64; non-trivial when a component is clamped or on a bound", bound: "400 colours per case, sampled", quick: 2_000, thorough: 60_000, f: c16 },
        Prop { id: "C17", rule: "all 2^24 opaque 8-bit colours (one case per red value), exact round trips; every colour is non-trivial", bound: "exhaustive over 2^24 colours; alpha sampled at 3 values per colour", quick: 256, thorough: 256, f: c17 },
        Prop { id: "C18", rule: "XYZ colours on a grid, at the corners of the range, near channel thresholds and at random, f32 and f64, against the sRGB encoding computed in f64; non-trivial when a channel saturates", bound: "2000 colours per case, sampled", quick: 600, thorough: 20_000, f: c18 },
        Prop { id: "C22", rule: "all 2^24 sRGB colours to XYZ (one case per red value), XYZ colours on a grid and at random to Lab and back, all greys, against formulas written from the standards; every colour is non-trivial", bound: "sRGB to XYZ exhaustive over 2^24 colours; XYZ/Lab sampled, 4000 colours per case", quick: 256, thorough: 4_096, f: c22 },
    ]
}

const WHITE: [f64; 3] = [0.95046, 1.0, 1.08906];

pub fn ref_decode(c: f64) -> f64 {
    if c <= 0.04045 {
        c / 12.92
    } else {
        ((c + 0.055) / 1.055).powf(2.4)
    }
}
pub fn ref_encode(v: f64) -> f64 {
    if v <= 0.0031308 {
        12.92 * v
    } else {
        1.055 * v.powf(1.0 / 2.4) - 0.055
    }
}
pub fn ref_rgb_to_xyz(rgb: [f64; 3]) -> [f64; 3] {
    let [r, g, b] = rgb;
    [
        0.4123907993 * r + 0.3575843394 * g + 0.1804807884 * b,
        0.2126390059 * r + 0.7151686788 * g + 0.0721923154 * b,
        0.0193308187 * r + 0.1191947798 * g + 0.9505321522 * b,
    ]
}
pub fn ref_xyz_to_rgb(x: [f64; 3]) -> [f64; 3] {
    [
        3.2409699419 * x[0] - 1.5373831776 * x[1] - 0.4986107603 * x[2],
        -0.9692436363 * x[0] + 1.8759675015 * x[1] + 0.0415550574 * x[2],
        0.0556300797 * x[0] - 0.2039769589 * x[1] + 1.0569715142 * x[2],
    ]
}
fn ref_f(t: f64) -> f64 {
    let d: f64 = 6.0 / 29.0;
    if t > d * d * d {
        t.powf(1.0 / 3.0)
    } else {
        t / (3.0 * d * d) + 4.0 / 29.0
    }
}
fn ref_finv(t: f64) -> f64 {
    let d: f64 = 6.0 / 29.0;
    if t > d {
        t * t * t
    } else {
        3.0 * d * d * (t - 4.0 / 29.0)
    }
}
pub fn ref_lab(x: [f64; 3]) -> [f64; 3] {
    let f: Vec<f64> = (0..3).map(|i| ref_f(x[i] / WHITE[i])).collect();
    [116.0 * f[1] - 16.0, 500.0 * (f[0] - f[1]), 200.0 * (f[1] - f[2])]
}
pub fn ref_lab_to_xyz(l: [f64; 3]) -> [f64; 3] {
    let fy = (l[0] + 16.0) / 116.0;
    [WHITE[0] * ref_finv(fy + l[1] / 500.0), WHITE[1] * ref_finv(fy), WHITE[2] * ref_finv(fy - l[2] / 200.0)]
}

pub const LAB: [(f64, f64); 3] = [(0.0, 100.0), (-128.0, 127.0), (-128.0, 127.0)];
pub const XYZB: [(f64, f64); 3] = [(0.0, 0.950456), (0.0, 1.0), (0.0, 1.088644)];

fn c16(idx: u64, r: &mut Rng, info: &mut Info) -> Res {
    if idx % 2 == 0 {
        c16g::<f64>(r, info)
    } else {
        c16g::<f32>(r, info)
    }
}
fn value<F: Fl>(r: &mut Rng, b: (f64, f64)) -> F {
    loop {
        let v = match r.below(8) {
            0..=1 => F::bits(r),
            2 => F::of(b.0),
            3 => F::of(b.1),
            4 => F::of(b.0 + (b.1 - b.0) * r.unit()),
            5 => F::of(*r.pick(&[f64::INFINITY, f64::NEG_INFINITY, -0.0, 0.0, 1e300, -1e300, f64::MIN_POSITIVE, 5e-324])),
            6 => {
                let x = F::of(if r.bool() { b.0 } else { b.1 });
                F::of(x.to() * (1.0 + F::EPS * (r.below(5) as f64 - 2.0)))
            }
            _ => F::of(b.0 - 300.0 + (b.1 - b.0 + 600.0) * r.unit()),
        };
        if !v.nan() {
            return v;
        }
    }
}
fn clamp_ok<F: Fl>(what: &str, v: F, b: (F, F), got: F) -> Res {
    let want = if v < b.0 {
        b.0
    } else if v > b.1 {
        b.1
    } else {
        v
    };
    check(got == want, || format!("{what}: {v:e} becomes {got:e}, expected {want:e}"))
}
fn in_range<F: Fl>(what: &str, v: F, b: (F, F)) -> Res {
    check(b.0 <= v && v <= b.1, || format!("{what} = {v:e} is outside [{:e}, {:e}]", b.0, b.1))
}
fn c16g<F: Fl>(r: &mut Rng, info: &mut Info) -> Res {
    let lb = LAB.map(|b| (F::of(b.0), F::of(b.1)));
    let xb = XYZB.map(|b| (F::of(b.0), F::of(b.1)));
    info.nontrivial = true;
    for n in 0..400 {
        let v: Vec<F> = (0..3).map(|i| value::<F>(r, LAB[i])).collect();
        let w: Vec<F> = (0..3).map(|i| value::<F>(r, XYZB[i])).collect();
        if n == 0 {
            info.input = format!("{} first Lab input {v:?}, XYZ input {w:?}", F::NAME);
        }
        info.evals += 1;
        let lab: Lab<F> = Lab::new(v[0], v[1], v[2]);
        let xyz: XYZ<F> = XYZ::new(w[0], w[1], w[2]);
        let named = |e: String| format!("{e} (Lab input {v:?}, XYZ input {w:?})");
        clamp_ok("Lab L", v[0], lb[0], lab.l).map_err(named)?;
        clamp_ok("Lab a", v[1], lb[1], lab.a).map_err(named)?;
        clamp_ok("Lab b", v[2], lb[2], lab.b).map_err(named)?;
        clamp_ok("XYZ x", w[0], xb[0], xyz.x).map_err(named)?;
        clamp_ok("XYZ y", w[1], xb[1], xyz.y).map_err(named)?;
        clamp_ok("XYZ z", w[2], xb[2], xyz.z).map_err(named)?;
        let x2: XYZ<F> = XYZ::from(&lab);
        let l2: Lab<F> = Lab::from(&xyz);
        let rgb = Rgba::new(r.next() as u8, r.next() as u8, r.next() as u8, r.next() as u8);
        let x3: XYZ<F> = XYZ::from(&rgb);
        for x in [&x2, &x3] {
            in_range("converted x", x.x, xb[0]).map_err(named)?;
            in_range("converted y", x.y, xb[1]).map_err(named)?;
            in_range("converted z", x.z, xb[2]).map_err(named)?;
        }
        in_range("converted L", l2.l, lb[0]).map_err(named)?;
        in_range("converted a", l2.a, lb[1]).map_err(named)?;
        in_range("converted b", l2.b, lb[2]).map_err(named)?;
    }
    Ok(())
}

fn c17(idx: u64, r: &mut Rng, info: &mut Info) -> Res {
    let red = idx as u8;
    info.input = format!("red {red}, all greens and blues");
    info.nontrivial = true;
    for g in 0..=255u8 {
        for b in 0..=255u8 {
            info.evals += 1;
            let c = Rgba::new(red, g, b, 255);
            let xyz: XYZ<f64> = XYZ::from(&c);
            let back = Rgba::from(&xyz);
            check(back == c, || format!("{c} becomes {back} through XYZ"))?;
            let lab: Lab<f64> = Lab::from(&xyz);
            let x2: XYZ<f64> = XYZ::from(&lab);
            let back = Rgba::from(&x2);
            check(back == c, || format!("{c} becomes {back} through XYZ and Lab"))?;
            for a in [0u8, 128, r.next() as u8] {
                let o: XYZ<f64> = XYZ::from(&Rgba::new(red, g, b, a));
                check(o == xyz, || format!("alpha {a} changes the XYZ value of {c}"))?;
            }
        }
    }
    Ok(())
}

fn c18(idx: u64, r: &mut Rng, info: &mut Info) -> Res {
    if idx % 2 == 0 {
        c18g::<f64>(r, info)
    } else {
        c18g::<f32>(r, info)
    }
}
/// The encoded value is only known up to the precision of the published constants.
pub fn channel_ok(linear: f64, got: u8, slack: f64) -> bool {
    let v = ref_encode(linear) * 255.0;
    let lo = (v - slack).clamp(0.0, 255.0).round();
    let hi = (v + slack).clamp(0.0, 255.0).round();
    (lo..=hi).contains(&(got as f64))
}
fn c18g<F: Fl>(r: &mut Rng, info: &mut Info) -> Res {
    for n in 0..2000 {
        let x: Vec<f64> = match r.below(5) {
            0 => (0..3).map(|i| if r.bool() { XYZB[i].0 } else { XYZB[i].1 }).collect(),
            1 => (0..3).map(|i| XYZB[i].1 * r.below(9) as f64 / 8.0).collect(),
            2 => {
                // close to the sRGB gamut
                let lin = [0, 1, 2].map(|_| r.unit() * 1.1 - 0.05);
                let x = ref_rgb_to_xyz(lin);
                (0..3).map(|i| x[i].clamp(0.0, XYZB[i].1)).collect()
            }
            3 => (0..3).map(|i| XYZB[i].1 * r.unit() * if r.bool() { 0.01 } else { 1.0 }).collect(),
            _ => (0..3).map(|i| XYZB[i].1 * r.unit()).collect(),
        };
        let xyz: XYZ<F> = XYZ::new(F::of(x[0]), F::of(x[1]), F::of(x[2]));
        if n == 0 {
            info.input = format!("{} first colour {x:?}", F::NAME);
        }
        info.evals += 1;
        let got = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| Rgba::from(&xyz))).map_err(|_| format!("conversion of XYZ {x:?} panics"))?;
        check(got.a == 255, || format!("alpha {} for XYZ {x:?}", got.a))?;
        let lin = ref_xyz_to_rgb([xyz.x.to(), xyz.y.to(), xyz.z.to()]);
        if lin.iter().any(|v| *v < 0.0 || *v > 1.0) {
            info.nontrivial = true;
        }
        for (name, l, g) in [("red", lin[0], got.r), ("green", lin[1], got.g), ("blue", lin[2], got.b)] {
            check(channel_ok(l, g, 0.06), || format!("{name} of XYZ {x:?} is {g}, the linear value is {l}, encoded {}", ref_encode(l) * 255.0))?;
        }
    }
    Ok(())
}

fn c22(idx: u64, r: &mut Rng, info: &mut Info) -> Res {
    info.nontrivial = true;
    info.input = format!("case {idx}");
    let near = |a: f64, b: f64, t: f64| (a - b).abs() <= t;
    if idx < 256 {
        let red = idx as u8;
        let lut: Vec<f64> = (0..256).map(|i| ref_decode(i as f64 / 255.0)).collect();
        for g in 0..=255u8 {
            for b in 0..=255u8 {
                info.evals += 1;
                let c = Rgba::new(red, g, b, 255);
                let x: XYZ<f64> = XYZ::from(&c);
                let w = ref_rgb_to_xyz([lut[red as usize], lut[g as usize], lut[b as usize]]);
                let got = [x.x, x.y, x.z];
                for i in 0..3 {
                    check(near(got[i], w[i].min(XYZB[i].1), 1e-4), || format!("{c} has XYZ {got:?}, the standard gives {w:?}"))?;
                }
                if b % 16 == red % 16 {
                    let x: XYZ<f32> = XYZ::from(&c);
                    let got = [x.x as f64, x.y as f64, x.z as f64];
                    for i in 0..3 {
                        check(near(got[i], w[i].min(XYZB[i].1), 1e-4), || format!("{c} has XYZ {got:?} in single precision, the standard gives {w:?}"))?;
                    }
                }
            }
        }
        let grey: XYZ<f64> = XYZ::from(&Rgba::new(red, red, red, 255));
        let l: Lab<f64> = Lab::from(&grey);
        check(l.a.abs() < 0.1 && l.b.abs() < 0.1, || format!("grey {red} has Lab {l}"))?;
        let grey: XYZ<f32> = XYZ::from(&Rgba::new(red, red, red, 255));
        let l: Lab<f32> = Lab::from(&grey);
        check(l.a.abs() < 0.1 && l.b.abs() < 0.1, || format!("grey {red} has Lab {l} in single precision"))?;
    }
    for _ in 0..4000 {
        let x: Vec<f64> = match r.below(4) {
            0 => (0..3).map(|i| XYZB[i].1 * r.below(17) as f64 / 16.0).collect(),
            1 => (0..3).map(|i| XYZB[i].1 * r.unit() * 0.03).collect(),
            2 => {
                let rgb = [0, 1, 2].map(|_| ref_decode(r.unit()));
                ref_rgb_to_xyz(rgb).iter().enumerate().map(|(i, v)| v.min(XYZB[i].1)).collect()
            }
            _ => (0..3).map(|i| XYZB[i].1 * r.unit()).collect(),
        };
        info.evals += 1;
        let w = ref_lab([x[0], x[1], x[2]]);
        let clamped: Vec<f64> = (0..3).map(|i| w[i].clamp(LAB[i].0, LAB[i].1)).collect();
        macro_rules! both {
            ($f:ty) => {{
                let c: XYZ<$f> = XYZ::new(x[0] as $f, x[1] as $f, x[2] as $f);
                let l: Lab<$f> = Lab::from(&c);
                let got = [l.l as f64, l.a as f64, l.b as f64];
                for i in 0..3 {
                    check(near(got[i], clamped[i], 0.1), || format!("XYZ {x:?} has Lab {got:?}, the CIE formula gives {w:?}"))?;
                }
                if (0..3).all(|i| LAB[i].0 < w[i] && w[i] < LAB[i].1) {
                    let back: XYZ<$f> = XYZ::from(&Lab::new(l.l as $f, l.a as $f, l.b as $f));
                    let b = [back.x as f64, back.y as f64, back.z as f64];
                    for i in 0..3 {
                        check(near(b[i], x[i], 1e-3), || format!("XYZ {x:?} becomes {b:?} through Lab {got:?}"))?;
                    }
                }
            }};
        }
        both!(f64);
        both!(f32);
    }
    Ok(())
}
