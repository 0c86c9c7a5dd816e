use crate::by_type;
use crate::gen::*;
use crate::{Info, Prop, Res};
use auto_palette::swatch::Swatch;
use auto_palette::verif_hooks::*;
use std::cmp::Ordering;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C19", rule: "random component values (bit patterns, specials, ordinary) for 2/3/5-dimensional points in f32 and f64; every case is non-trivial", bound: "100 point pairs per case, sampled", quick: 40_000, thorough: 200_000, f: c19 },
        Prop { id: "C20", rule: "triples of keys from specials and random bit patterns, for edges, candidates and swatches in f32 and f64; non-trivial when the keys are not all equal", bound: "300 triples per case, sampled", quick: 2_000, thorough: 60_000, f: c20 },
        Prop { id: "C21", rule: "values and ranges of every number type from specials and random bits; all 256 bytes for every conversion; every case is non-trivial", bound: "sampled, except conversions from 8 bits which are exhaustive", quick: 4_000, thorough: 100_000, f: c21 },
    ]
}

fn same<F: Fl>(a: F, b: F) -> bool {
    a == b || (a.nan() && b.nan())
}
fn scalar<F: Fl>(r: &mut Rng) -> F {
    match r.below(6) {
        0 => F::bits(r),
        1 => F::of(*r.pick(&[0.0, -0.0, 1.0, -1.0, 0.5, 2.0, 1e-30, 1e30])),
        5 if r.below(20) == 0 => *r.pick(&[F::max_value(), -F::max_value(), F::min_positive_value(), F::epsilon()]),
        2 => F::of(r.below(9) as f64 - 4.0),
        _ => F::of((r.unit() - 0.5) * *r.pick(&[1.0, 10.0, 1e-6, 1e6])),
    }
}

fn c19(idx: u64, r: &mut Rng, info: &mut Info) -> Res {
    by_type!(idx, c19g(r, info))
}
fn c19g<F: Fl, P: Mk<F>>(r: &mut Rng, info: &mut Info) -> Res
where
    P: std::ops::Mul<F, Output = P> + std::ops::Div<F, Output = P>,
{
    info.nontrivial = true;
    for n in 0..100 {
        let a: Vec<F> = (0..P::D).map(|_| scalar(r)).collect();
        let b: Vec<F> = (0..P::D).map(|_| scalar(r)).collect();
        let s: F = scalar(r);
        if n == 0 {
            info.input = format!("{} {}-d first pair {a:?} {b:?} scalar {s:e}", F::NAME, P::D);
        }
        info.evals += 1;
        let (p, q) = (P::mk(&a), P::mk(&b));
        check(p.dim() == P::D && p.to_vec().len() == P::D, || "dimension".into())?;
        let comp = |what: &str, v: &P, want: &dyn Fn(usize) -> F| -> Res {
            for j in 0..P::D {
                check(same(v[j], want(j)) && same(v.to_vec()[j], v[j]), || {
                    format!("{what} of {a:?}, {b:?}, scalar {s:e}: component {j} is {:e}, expected {:e}", v[j], want(j))
                })?;
            }
            Ok(())
        };
        comp("component", &p, &|j| a[j])?;
        comp("sum", &(p + q), &|j| a[j] + b[j])?;
        comp("difference", &(p - q), &|j| a[j] - b[j])?;
        comp("product", &(p * s), &|j| a[j] * s)?;
        let (mut x, mut y, mut z) = (p, p, p);
        x += q;
        y -= q;
        z *= s;
        comp("in-place sum", &x, &|j| a[j] + b[j])?;
        comp("in-place difference", &y, &|j| a[j] - b[j])?;
        comp("in-place product", &z, &|j| a[j] * s)?;
        if !s.is_zero() {
            comp("quotient", &(p / s), &|j| a[j] / s)?;
            let mut x = p;
            x /= s;
            comp("in-place quotient", &x, &|j| a[j] / s)?;
        }
        if n < 2 {
            let zero = if r.bool() { F::zero() } else { -F::zero() };
            check(catch_unwind(AssertUnwindSafe(|| p / zero)).is_err(), || "division by zero is accepted".into())?;
            check(catch_unwind(AssertUnwindSafe(|| { let mut x = p; x /= zero; x })).is_err(), || "in-place division by zero is accepted".into())?;
            check(P::zero().is_zero(), || "the zero point is not zero".into())?;
            comp("zero", &P::zero(), &|_| F::zero())?;
            check(catch_unwind(AssertUnwindSafe(|| p[P::D])).is_err(), || "index beyond the dimension is accepted".into())?;
        }
        check(p.is_zero() == a.iter().all(|v| *v == F::zero()), || format!("is_zero of {a:?}"))?;
        if a.iter().chain(&b).all(|v| v.to().is_finite()) {
            let (e, sq): (F, F) = (DistanceMetric::Euclidean.measure(&p, &q), DistanceMetric::SquaredEuclidean.measure(&p, &q));
            let (e2, sq2): (F, F) = (DistanceMetric::Euclidean.measure(&q, &p), DistanceMetric::SquaredEuclidean.measure(&q, &p));
            check(e == e2 && sq == sq2, || format!("distance of {a:?} and {b:?} is {e:e} / {sq:e}, back {e2:e} / {sq2:e}"))?;
            check(e >= F::zero() && sq >= F::zero(), || format!("negative distance {e:e} / {sq:e} for {a:?} and {b:?}"))?;
            let want: f64 = a.iter().zip(&b).map(|(u, v)| (*u - *v).to() * (*u - *v).to()).sum();
            let twice: F = F::of(2.0 * want);
            if F::of(want / 2.0).to().is_infinite() {
                check(sq.to().is_infinite() && e.to().is_infinite(), || format!("distance of {a:?} and {b:?} is {sq:e} / {e:e}, too large to represent"))?;
            } else if want > 1e-25 && twice.to().is_finite() {
                check(close(sq.to(), want, 16.0 * F::EPS, 0.0), || format!("squared distance of {a:?} and {b:?} is {sq:e}, by definition {want:e}"))?;
                check(close(e.to(), want.sqrt(), 16.0 * F::EPS, 0.0), || format!("distance of {a:?} and {b:?} is {e:e}, by definition {:e}", want.sqrt()))?;
            }
            let (z, zs): (F, F) = (DistanceMetric::Euclidean.measure(&p, &p), DistanceMetric::SquaredEuclidean.measure(&p, &p));
            check(z == F::zero() && zs == F::zero(), || format!("distance of {a:?} to itself is {z:e} / {zs:e}"))?;
        }
    }
    Ok(())
}

fn key<F: Fl>(r: &mut Rng, others: &[F]) -> F {
    loop {
        let v = match r.below(4) {
            0 if !others.is_empty() => *r.pick(others),
            1 => F::of(*r.pick(&[0.0, -0.0, 1.0, -1.0, f64::INFINITY, f64::NEG_INFINITY, 0.5])),
            2 => F::of(r.below(3) as f64),
            _ => F::bits(r),
        };
        if !v.nan() {
            return v;
        }
    }
}

fn order_ok(what: &str, keys: &[Ordering; 3], got: &[Ordering; 9], part: &[Option<Ordering>; 9]) -> Res {
    // got[3*i+j] compares i with j; keys = [cmp(0,1), cmp(1,2), cmp(0,2)] expected
    for i in 0..3 {
        check(got[4 * i] == Ordering::Equal, || format!("{what}: not reflexive"))?;
        for j in 0..3 {
            check(got[3 * i + j] == got[3 * j + i].reverse(), || format!("{what}: not antisymmetric"))?;
            check(part[3 * i + j] == Some(got[3 * i + j]), || format!("{what}: partial comparison disagrees"))?;
        }
    }
    check(got[1] == keys[0] && got[5] == keys[1] && got[2] == keys[2], || format!("{what}: order {got:?} does not follow the keys"))
}

fn c20(idx: u64, r: &mut Rng, info: &mut Info) -> Res {
    if idx % 2 == 0 {
        c20g::<f64>(r, info)
    } else {
        c20g::<f32>(r, info)
    }
}
fn c20g<F: Fl>(r: &mut Rng, info: &mut Info) -> Res {
    for n in 0..300 {
        let mut k: Vec<F> = vec![];
        for _ in 0..3 {
            let v = key(r, &k);
            k.push(v);
        }
        if n == 0 {
            info.input = format!("{} first keys {k:?}", F::NAME);
        }
        info.evals += 1;
        info.nontrivial |= k[0] != k[1] || k[1] != k[2];
        let c = |i: usize, j: usize| k[i].partial_cmp(&k[j]).unwrap();
        let fwd = [c(0, 1), c(1, 2), c(0, 2)];
        let rev = fwd.map(|o| o.reverse());
        let ctx = |e: String| format!("{e} (keys {k:?})");
        let idx: Vec<(usize, usize)> = (0..9).map(|x| (x / 3, x % 3)).collect();
        let es: Vec<WeightedEdge<F>> = k.iter().map(|w| WeightedEdge::new(r.us(0, 3), r.us(0, 3), *w)).collect();
        let g: Vec<Ordering> = idx.iter().map(|(i, j)| es[*i].cmp(&es[*j])).collect();
        let p: Vec<Option<Ordering>> = idx.iter().map(|(i, j)| es[*i].partial_cmp(&es[*j])).collect();
        order_ok("edges", &rev, g[..].try_into().unwrap(), p[..].try_into().unwrap()).map_err(ctx)?;
        for e in &es {
            check(e.clone() == *e && e.clone().weight() == e.weight(), || ctx("an edge differs from its copy".into()))?;
        }
        let xs: Vec<El<F>> = k.iter().map(|w| El::new(r.us(0, 3), *w)).collect();
        let g: Vec<Ordering> = idx.iter().map(|(i, j)| xs[*i].cmp(&xs[*j])).collect();
        let p: Vec<Option<Ordering>> = idx.iter().map(|(i, j)| xs[*i].partial_cmp(&xs[*j])).collect();
        order_ok("candidates", &rev, g[..].try_into().unwrap(), p[..].try_into().unwrap()).map_err(ctx)?;
        for (i, j) in &idx {
            check(xs[*i].eq(&xs[*j]) == (k[*i] == k[*j]), || ctx("equality of candidates does not follow the distance".into()))?;
        }
        let ss: Vec<Swatch<F>> = k
            .iter()
            .map(|w| Swatch { color: (r.next() as u8, r.next() as u8, 0), position: (r.next() as u32, 1), percentage: *w })
            .collect();
        let g: Vec<Ordering> = idx.iter().map(|(i, j)| ss[*i].cmp(&ss[*j])).collect();
        let p: Vec<Option<Ordering>> = idx.iter().map(|(i, j)| ss[*i].partial_cmp(&ss[*j])).collect();
        order_ok("swatches", &fwd, g[..].try_into().unwrap(), p[..].try_into().unwrap()).map_err(ctx)?;
    }
    Ok(())
}

trait Val: Number + Clamp + PartialOrd + std::fmt::Debug {
    fn any(r: &mut Rng) -> Self;
    fn ok(self) -> bool;
}
macro_rules! val_int {
    ($($t:ty),*) => { $(impl Val for $t {
        fn any(r: &mut Rng) -> Self {
            match r.below(4) {
                0 => <$t>::MIN,
                1 => <$t>::MAX,
                2 => r.below(9) as $t,
                _ => ((r.next() as u128) << 64 | r.next() as u128) as $t,
            }
        }
        fn ok(self) -> bool { true }
    })* };
}
val_int!(u8, u16, u32, u64, u128);
macro_rules! val_float {
    ($($t:ty),*) => { $(impl Val for $t {
        fn any(r: &mut Rng) -> Self {
            match r.below(3) {
                0 => <$t as Fl>::bits(r),
                1 => *r.pick(&[0.0, -0.0, 1.0, -1.0, <$t>::INFINITY, <$t>::NEG_INFINITY, <$t>::MAX, <$t>::MIN_POSITIVE]),
                _ => (r.unit() * 20.0 - 10.0) as $t,
            }
        }
        fn ok(self) -> bool { !self.is_nan() }
    })* };
}
val_float!(f32, f64);

fn clamp_case<T: Val>(r: &mut Rng, name: &str) -> Res {
    let mut v: Vec<T> = vec![];
    while v.len() < 3 {
        let x = if !v.is_empty() && r.below(5) == 0 { v[0] } else { T::any(r) };
        if x.ok() {
            v.push(x);
        }
    }
    let (x, a, b) = (v[0], v[1], v[2]);
    let (lo, hi) = if a <= b { (a, b) } else { (b, a) };
    let got = clamp(x, lo, hi);
    let want = if x < lo {
        lo
    } else if x > hi {
        hi
    } else {
        x
    };
    check(got == want, || format!("{name}: clamp({x:?}, {lo:?}, {hi:?}) is {got:?}, expected {want:?}"))?;
    if lo < hi {
        check(catch_unwind(AssertUnwindSafe(|| clamp(x, hi, lo))).is_err(), || format!("{name}: inverted range [{hi:?}, {lo:?}] is accepted"))?;
    }
    Ok(())
}

fn c21(idx: u64, r: &mut Rng, info: &mut Info) -> Res {
    info.nontrivial = true;
    info.input = format!("case {idx}, generator {:#x}", r.0);
    info.evals = 40;
    for _ in 0..4 {
        clamp_case::<u8>(r, "u8")?;
        clamp_case::<u16>(r, "u16")?;
        clamp_case::<u32>(r, "u32")?;
        clamp_case::<u64>(r, "u64")?;
        clamp_case::<u128>(r, "u128")?;
        clamp_case::<f32>(r, "f32")?;
        clamp_case::<f64>(r, "f64")?;
    }
    macro_rules! keep {
        ($n:expr, $f:ident, $bits:expr, $($t:ty: $cap:expr),*) => { $(
            // representable: fits the integer type, or has at most the significand's bits
            let n = $n;
            let fits = if $cap == 24 || $cap == 53 { n == 0 || (64 - (n as u64).leading_zeros() - (n as u64).trailing_zeros()) <= $cap } else { (n as u128) >> ($cap - 1) >> 1 == 0 };
            if fits {
                let got = <$t as Number>::$f(n);
                check(got as u128 == n as u128, || format!("{} {n} becomes {got:?} as {}", stringify!($f), stringify!($t)))?;
            }
        )* };
    }
    let n64 = match r.below(5) {
        0 => u64::MAX,
        1 => r.next() >> r.below(64),
        2 => (r.next() >> 40) << r.below(40),
        3 => 1 << r.below(64),
        _ => r.below(300),
    };
    keep!(n64, from_u64, 64, u8: 8, u16: 16, u32: 32, u64: 64, u128: 128, f32: 24, f64: 53);
    keep!(n64 as usize, from_usize, 64, u8: 8, u16: 16, u32: 32, u64: 64, u128: 128, f32: 24, f64: 53);
    keep!(n64 as u32, from_u32, 32, u8: 8, u16: 16, u32: 32, u64: 64, u128: 128, f32: 24, f64: 53);
    let b0 = r.next() as u8;
    keep!(b0, from_u8, 8, u8: 8, u16: 16, u32: 32, u64: 64, u128: 128, f32: 24, f64: 53);
    if idx == 0 {
        for b in 0..=255u8 {
            keep!(b, from_u8, 8, u8: 8, u16: 16, u32: 32, u64: 64, u128: 128, f32: 24, f64: 53);
        }
    }
    let (x, y) = (<f32 as Fl>::bits(r), <f64 as Fl>::bits(r));
    check(same(<f64 as Float>::from_f32(x), x as f64) && same(<f32 as Float>::from_f32(x), x), || format!("from_f32 {x:e}"))?;
    check(same(<f64 as Float>::from_f64(y), y) && same(<f32 as Float>::from_f64(y), y as f32), || format!("from_f64 {y:e}"))?;
    let c = Rgba::new(r.next() as u8, r.next() as u8, r.next() as u8, r.next() as u8);
    let want = [c.r, c.g, c.b, c.a];
    macro_rules! chan {
        ($($t:ty),*) => { $(
            let got = [c.r::<$t>(), c.g::<$t>(), c.b::<$t>(), c.a::<$t>()];
            for i in 0..4 {
                check(got[i] as u128 == want[i] as u128, || format!("channel {i} of {c} as {} is {:?}", stringify!($t), got[i]))?;
            }
            check(Rgba::max_value::<$t>() as u128 == 255, || format!("maximum as {}", stringify!($t)))?;
        )* };
    }
    chan!(u8, u16, u32, u64, u128, f32, f64);
    let lb = lab_bounds::<f64>();
    let xb = xyz_bounds::<f64>();
    check(lb == crate::colour::LAB && xb == crate::colour::XYZB, || format!("bounds {lb:?} {xb:?}"))
}
