use crate::by_type;
use crate::gen::*;
use crate::{Info, Prop, Res};
use auto_palette::verif_hooks::*;

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C06", rule: "random point sets (13 geometries, 2/3/5 dimensions, f32 and f64, duplicates), 12 queries each with radii taken from pair distances, fixed values and extremes; non-trivial when the data set has 2 or more points", bound: "up to 260 points per data set, one in a thousand up to 3000", quick: 150_000, thorough: 3_000_000, f: c06 },
        Prop { id: "C07", rule: "random point sets as for C06, queries with k from 0 to the largest word; non-trivial when the data set has 2 or more points", bound: "up to 260 points per data set, one in a thousand up to 3000", quick: 150_000, thorough: 3_000_000, f: c07 },
        Prop { id: "C08", rule: "random point sets as for C06, all three linear queries; non-trivial when the data set has 2 or more points", bound: "up to 260 points per data set, one in a thousand up to 3000", quick: 150_000, thorough: 3_000_000, f: c08 },
        Prop { id: "C09", rule: "random point sets, sample counts 0 to beyond the data size; non-trivial when the data set has 2 or more points", bound: "up to 260 points per data set, one in a thousand up to 3000", quick: 8_000, thorough: 200_000, f: c09 },
    ]
}

struct Data<F: Fl, P: Mk<F>> {
    c: Vec<Vec<F>>,
    ds: Vec<P>,
    m: DistanceMetric,
}

fn data<F: Fl, P: Mk<F>>(r: &mut Rng, info: &mut Info) -> Data<F, P> {
    let n = size_wide(r);
    let (c, kind) = coords::<F>(r, n, P::D, true);
    let m = metric(r);
    info.nontrivial = n >= 2;
    info.input = format!("{} {}-d {:?} geometry {} points {}", F::NAME, P::D, m, kind, fmt_pts(&c));
    let ds = points::<F, P>(&c);
    Data { c, ds, m }
}

fn query<F: Fl, P: Mk<F>>(r: &mut Rng, d: &Data<F, P>) -> Vec<F> {
    if d.c.is_empty() || r.below(4) == 0 {
        return (0..P::D).map(|_| F::of(r.unit() * 4.0 - 1.0)).collect();
    }
    let mut q = r.pick(&d.c).clone();
    match r.below(4) {
        0 => {}
        1 => {
            let o = r.pick(&d.c).clone();
            for j in 0..P::D {
                q[j] = F::of((q[j].to() + o[j].to()) / 2.0);
            }
        }
        2 => {
            let o = r.pick(&d.c).clone();
            let j = r.us(0, P::D - 1);
            q[j] = o[j];
        }
        _ => {
            for j in 0..P::D {
                q[j] = F::of(q[j].to() + (r.unit() - 0.5) * 0.2);
            }
        }
    }
    q
}

fn all_dist<F: Fl, P: Mk<F>>(d: &Data<F, P>, qc: &[F], q: &P) -> Result<Vec<F>, String> {
    let mut v = Vec::with_capacity(d.ds.len());
    for i in 0..d.ds.len() {
        let x = d.m.measure(&d.ds[i], q);
        let rf = ref_dist(&d.c[i], qc, &d.m);
        // The measured distance itself is C19's subject; here it only must not be nonsense.
        if rf > 1e-15 && rf < 1e15 {
            check(close(x.to(), rf, 64.0 * F::EPS, 64.0 * F::EPS * mag(&d.c[i], qc, &d.m)), || {
                format!("measured distance {x} of point {i} to query {qc:?}, by definition {rf}")
            })?;
        }
        v.push(x);
    }
    Ok(v)
}

fn mag<F: Fl>(a: &[F], b: &[F], m: &DistanceMetric) -> f64 {
    let s: f64 = a.iter().chain(b).map(|x| x.to() * x.to()).sum();
    match m {
        DistanceMetric::Euclidean => s.sqrt(),
        DistanceMetric::SquaredEuclidean => s,
    }
}

fn radius<F: Fl>(r: &mut Rng, all: &[F]) -> F {
    match r.below(10) {
        0 => F::zero(),
        1 => F::of(-1.0),
        2 => F::of(-1e-20),
        3 => F::of(1e20),
        4 => F::of(r.unit()),
        5 => F::of(r.unit() * 0.1),
        _ => {
            if all.is_empty() {
                F::of(1.0)
            } else {
                let x = *r.pick(all);
                match r.below(4) {
                    0 => F::of(x.to() * 0.999),
                    1 => F::of(x.to() * 1.001),
                    _ => x,
                }
            }
        }
    }
}

fn check_radius<F: Fl>(what: &str, all: &[F], q: &[F], r: F, got: &[(usize, F)], sorted: bool) -> Res {
    let ctx = || format!("{what} query {q:?} radius {r}: got {got:?}");
    let mut seen = vec![false; all.len()];
    for (i, dist) in got {
        check(*i < all.len(), || format!("index {i} out of range; {}", ctx()))?;
        check(!seen[*i], || format!("index {i} returned twice; {}", ctx()))?;
        seen[*i] = true;
        check(*dist == all[*i], || format!("index {i} has distance {dist}, measured {}; {}", all[*i], ctx()))?;
    }
    for i in 0..all.len() {
        let inside = r >= F::zero() && all[i] <= r;
        check(inside == seen[i], || {
            format!("index {i} at distance {} {} ; {}", all[i], if inside { "is missing" } else { "is outside" }, ctx())
        })?;
    }
    if sorted {
        check(got.windows(2).all(|w| w[0].1 <= w[1].1), || format!("not in ascending order; {}", ctx()))?;
    }
    Ok(())
}

fn check_knn<F: Fl>(what: &str, all: &[F], q: &[F], k: usize, got: &[(usize, F)]) -> Res {
    let ctx = || format!("{what} query {q:?} k {k}: got {got:?}");
    check(got.len() == k.min(all.len()), || format!("{} results expected; {}", k.min(all.len()), ctx()))?;
    let mut seen = vec![false; all.len()];
    for (i, dist) in got {
        check(*i < all.len(), || format!("index {i} out of range; {}", ctx()))?;
        check(!seen[*i], || format!("index {i} returned twice; {}", ctx()))?;
        seen[*i] = true;
        check(*dist == all[*i], || format!("index {i} has distance {dist}, measured {}; {}", all[*i], ctx()))?;
    }
    check(got.windows(2).all(|w| w[0].1 <= w[1].1), || format!("not in ascending order; {}", ctx()))?;
    if let Some(last) = got.last() {
        for i in 0..all.len() {
            check(seen[i] || all[i] >= last.1, || {
                format!("index {i} at distance {} left out although nearer; {}", all[i], ctx())
            })?;
        }
    }
    Ok(())
}

fn pick_k(r: &mut Rng, n: usize) -> usize {
    match r.below(12) {
        0 => 0,
        1 => 1,
        2 => 2,
        3 => n,
        4 => n + 1,
        5 => n.saturating_sub(1),
        6 => 10 * n + 7,
        7 => {
            if r.below(20) == 0 {
                usize::MAX
            } else {
                3
            }
        }
        _ => r.us(1, n.max(1)),
    }
}

fn c06(idx: u64, r: &mut Rng, info: &mut Info) -> Res {
    by_type!(idx, c06g(r, info))
}
fn c06g<F: Fl, P: Mk<F>>(r: &mut Rng, info: &mut Info) -> Res {
    let d = data::<F, P>(r, info);
    let kd = Kd::new(&d.ds, &d.m);
    for _ in 0..12 {
        let qc = query(r, &d);
        let q = P::mk(&qc);
        let all = all_dist(&d, &qc, &q)?;
        let rad = radius(r, &all);
        info.evals += 1;
        check_radius("tree", &all, &qc, rad, &kd.radius(&q, rad), true)?;
    }
    Ok(())
}

fn c07(idx: u64, r: &mut Rng, info: &mut Info) -> Res {
    by_type!(idx, c07g(r, info))
}
fn c07g<F: Fl, P: Mk<F>>(r: &mut Rng, info: &mut Info) -> Res {
    let d = data::<F, P>(r, info);
    let kd = Kd::new(&d.ds, &d.m);
    for _ in 0..12 {
        let qc = query(r, &d);
        let q = P::mk(&qc);
        let all = all_dist(&d, &qc, &q)?;
        let k = pick_k(r, all.len());
        info.evals += 2;
        check_knn("tree", &all, &qc, k, &kd.search(&q, k))?;
        let near: Vec<_> = kd.nearest(&q).into_iter().collect();
        check_knn("tree nearest", &all, &qc, 1, &near)?;
    }
    Ok(())
}

fn c08(idx: u64, r: &mut Rng, info: &mut Info) -> Res {
    by_type!(idx, c08g(r, info))
}
fn c08g<F: Fl, P: Mk<F>>(r: &mut Rng, info: &mut Info) -> Res {
    let d = data::<F, P>(r, info);
    let ln = Lin::new(&d.ds, d.m);
    for _ in 0..8 {
        let qc = query(r, &d);
        let q = P::mk(&qc);
        let all = all_dist(&d, &qc, &q)?;
        let k = pick_k(r, all.len());
        info.evals += 3;
        check_knn("linear", &all, &qc, k, &ln.search(&q, k))?;
        let near: Vec<_> = ln.nearest(&q).into_iter().collect();
        check_knn("linear nearest", &all, &qc, 1, &near)?;
        let rad = radius(r, &all);
        check_radius("linear", &all, &qc, rad, &ln.radius(&q, rad), false)?;
    }
    Ok(())
}

fn c09(idx: u64, r: &mut Rng, info: &mut Info) -> Res {
    by_type!(idx, c09g(r, info))
}
fn c09g<F: Fl, P: Mk<F>>(r: &mut Rng, info: &mut Info) -> Res {
    let d = data::<F, P>(r, info);
    let n = d.ds.len();
    let ms = match r.below(8) {
        0 => 0,
        1 => 1,
        2 => n,
        3 => n + 3,
        4 => n.saturating_sub(1),
        5 => *r.pick(&[usize::MAX, usize::MAX - 1, 1 << 32, 1 << 16]),
        _ => r.us(0, n),
    };
    info.input.push_str(&format!(" samples {ms}"));
    let core = Core::new(&d.ds, ms, &d.m);
    for i in 0..n {
        let q = &d.ds[i];
        let mut all = all_dist(&d, &d.c[i], q)?;
        all.sort_by(|a, b| a.partial_cmp(b).unwrap());
        let want = all[ms.saturating_add(1).min(n) - 1];
        info.evals += 1;
        let got = core.at(i);
        check(got == want, || format!("core distance of point {i} is {got}, expected {want}"))?;
    }
    Ok(())
}
