use crate::by_tagged;
use crate::gen::*;
use crate::{Info, Prop, Res};
use auto_palette::verif_hooks::*;
use rand::{Error, RngCore};

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C04", rule: "random point sets (9 geometries, 2/3/5 dimensions) with radii around pair distances and small minimum counts, compared with a brute-force density reference; non-trivial when some point is dense and some is not, or there are two clusters", bound: "up to 260 points per data set; 12 structured sets of up to 66,000 points", quick: 20_000, thorough: 400_000, f: c04 },
        Prop { id: "C05", rule: "as C04, checking the accounting of identifiers, sizes, means and outliers; non-trivial when at least one cluster is reported", bound: "up to 260 points per data set; 12 structured sets of up to 66,000 points", quick: 20_000, thorough: 400_000, f: c05 },
        Prop { id: "C14", rule: "random point sets, k around and below the data size, both initialisers, iteration limits 1,2,3,... replayed step by step; non-trivial when 1 <= k < n", bound: "up to 260 points, up to 12 iterations; 12 sets of up to 66,000 points, up to 3 iterations", quick: 40_000, thorough: 800_000, f: c14 },
        Prop { id: "C15", rule: "random point sets with duplicates, k from 0 to beyond n, both initialisers; non-trivial when 2 <= k < n", bound: "up to 260 points per data set, one in a thousand up to 3000", quick: 15_000, thorough: 300_000, f: c15 },
    ]
}

struct Dc<F: Fl, const N: usize> {
    c: Vec<Vec<F>>,
    ds: Vec<Tagged<F, N>>,
    m: DistanceMetric,
    eps: F,
    minp: usize,
}

fn density<F: Fl, const N: usize>(r: &mut Rng, info: &mut Info) -> Dc<F, N> {
    let n = size(r);
    let (c, kind) = coords::<F>(r, n, N, false);
    let m = metric(r);
    let ds = points::<F, Tagged<F, N>>(&c);
    let eps = if n >= 2 && r.below(4) != 0 {
        let mut near = F::of(f64::MAX.min(1e30));
        // the distance to some neighbour of some point, not too far down the list
        let i = r.us(0, n - 1);
        let mut v: Vec<F> = (0..n).filter(|j| *j != i).map(|j| m.measure(&ds[i], &ds[j])).collect();
        v.sort_by(|a, b| a.partial_cmp(b).unwrap());
        if !v.is_empty() {
            near = v[r.us(0, (v.len() - 1).min(8))];
        }
        match r.below(3) {
            0 => near,
            1 => F::of(near.to() * (1.0 + 0.2 * r.unit())),
            _ => F::of(near.to() * (1.0 - 0.2 * r.unit())),
        }
    } else {
        F::of(*r.pick(&[0.0, 0.05, 0.1, 0.25, 0.5, 1.0, 1.5, 3.0]))
    };
    let minp = match r.below(6) {
        0 => 1,
        1 => 2,
        2 => 3,
        3 => r.us(1, n.max(1)),
        _ => r.us(2, 6),
    };
    info.input = format!("{} {}-d {:?} radius {} minimum {} geometry {} points {}", F::NAME, N, m, eps, minp, kind, fmt_pts(&c));
    Dc { c, ds, m, eps, minp }
}

struct Reference {
    within: Vec<Vec<usize>>,
    dense: Vec<bool>,
    comp: Vec<usize>,
}

fn reference<F: Fl, const N: usize>(d: &Dc<F, N>) -> Reference {
    let n = d.ds.len();
    let within: Vec<Vec<usize>> = (0..n).map(|i| (0..n).filter(|j| d.m.measure(&d.ds[*j], &d.ds[i]) <= d.eps).collect()).collect();
    let dense: Vec<bool> = within.iter().map(|w| w.len() >= d.minp).collect();
    let mut comp = vec![usize::MAX; n];
    for i in 0..n {
        if !dense[i] || comp[i] != usize::MAX {
            continue;
        }
        comp[i] = i;
        let mut st = vec![i];
        while let Some(x) = st.pop() {
            for &y in &within[x] {
                if dense[y] && comp[y] == usize::MAX {
                    comp[y] = i;
                    st.push(y);
                }
            }
        }
    }
    Reference { within, dense, comp }
}

fn c04(idx: u64, r: &mut Rng, info: &mut Info) -> Res {
    if idx < WIDE {
        return if idx % 2 == 0 { wide_dbscan::<f64, 2>(idx, r, info) } else { wide_dbscan::<f32, 3>(idx, r, info) };
    }
    by_tagged!(idx, c04g(r, info))
}
fn c04g<F: Fl, const N: usize>(r: &mut Rng, info: &mut Info) -> Res {
    let d = density::<F, N>(r, info);
    let n = d.ds.len();
    let rf = reference(&d);
    let db = Db::fit(&d.ds, d.minp, d.eps, d.m);
    let mut at: Vec<Vec<usize>> = vec![vec![]; n];
    let cs = db.centroids();
    for (ci, c) in cs.iter().enumerate() {
        for i in c.members() {
            at[i].push(ci);
        }
    }
    let out = db.outliers();
    info.nontrivial = rf.dense.iter().any(|x| *x) && (rf.dense.iter().any(|x| !*x) || cs.len() > 1);
    for i in 0..n {
        if rf.dense[i] {
            check(!out.contains(&i), || format!("dense point {i} is reported as an outlier"))?;
            check(at[i].len() == 1, || format!("dense point {i} is in clusters {:?}", at[i]))?;
            for j in 0..i {
                if rf.dense[j] {
                    let together = at[i] == at[j];
                    check(together == (rf.comp[i] == rf.comp[j]), || {
                        format!("dense points {j} and {i} are {} but are {}chained by dense points", if together { "together" } else { "apart" }, if together { "not " } else { "" })
                    })?;
                }
            }
        } else if rf.within[i].iter().any(|j| rf.dense[*j]) {
            check(!out.contains(&i), || format!("point {i} lies within the radius of a dense point but is an outlier"))?;
            check(at[i].len() == 1, || format!("border point {i} is in clusters {:?}", at[i]))?;
            check(rf.within[i].iter().any(|j| rf.dense[*j] && at[*j] == at[i]), || {
                format!("border point {i} is in a cluster without a dense point within the radius")
            })?;
        } else {
            check(out.contains(&i), || format!("point {i} has no dense point within the radius but is not an outlier"))?;
            check(at[i].is_empty(), || format!("point {i} has no dense point within the radius but is in cluster {:?}", at[i]))?;
        }
    }
    Ok(())
}

fn mean_ok<F: Fl, const N: usize>(c: &[Vec<F>], members: &[usize], got: &Tagged<F, N>) -> Result<(), String> {
    let n = members.len() as f64;
    for j in 0..N {
        let s: f64 = members.iter().map(|i| c[*i][j].to()).sum();
        let mag: f64 = members.iter().map(|i| c[*i][j].to().abs()).sum::<f64>();
        let want = s / n;
        check(close(got.c[j].to(), want, 0.0, 4.0 * F::EPS * (n + 2.0) * mag / n + 1e-300), || {
            format!("coordinate {j} of a centroid is {}, the mean of its members {members:?} is {want}", got.c[j])
        })?;
    }
    Ok(())
}

/// Cases with more points, neighbours or clusters than the random ones; their clusters are known by construction.
const WIDE: u64 = 12;
/// Points one apart on lines far from each other, and single points, in random order.
fn wide_dbscan<F: Fl, const N: usize>(idx: u64, r: &mut Rng, info: &mut Info) -> Res {
    let (lines, longest, w) = match idx {
        0 | 1 => (1, 66_000, 1),
        2 | 3 => (2, 3_000, 1_200),
        4 | 5 => (400, 12, 2),
        _ => {
            let l = r.us(1, 300);
            (l, r.us(20, 6_000 / l + 20), r.us(1, 9))
        }
    };
    let gap = (10 * w + 10) as i64;
    let mut at: Vec<(i64, usize)> = vec![]; // position, line or usize::MAX
    let mut x = 0i64;
    let mut length = vec![];
    for l in 0..lines {
        let n = if l == 0 { longest } else { r.us(2 * w + 2, longest.max(2 * w + 2)) };
        length.push(n);
        for _ in 0..n {
            at.push((x, l));
            x += 1;
        }
        x += gap;
    }
    for _ in 0..r.us(5, 40) {
        at.push((x, usize::MAX));
        x += gap;
    }
    let n = at.len();
    for i in (1..n).rev() {
        let j = r.us(0, i);
        at.swap(i, j);
    }
    let axis = r.us(0, N - 1);
    let m = metric(r);
    // all points of a line dense, or the w at either end of it border points
    let minp = if r.bool() { w + 1 } else { 2 * w + 1 };
    let eps = w as f64 + 0.25;
    let eps = F::of(if m == DistanceMetric::Euclidean { eps } else { eps * eps });
    let c: Vec<Vec<F>> = at.iter().map(|p| (0..N).map(|j| if j == axis { F::of(p.0 as f64) } else { F::zero() }).collect()).collect();
    let ds = points::<F, Tagged<F, N>>(&c);
    info.input = format!("{} {}-d {:?} radius {eps} minimum {minp} on axis {axis}: lines of {length:?} points one apart with gaps of {gap}, then single points, in the order {}", F::NAME, N, m,
        at.iter().map(|p| p.0.to_string()).collect::<Vec<_>>().join(" "));
    info.nontrivial = true;
    let db = Db::fit(&ds, minp, eps, m);
    let single: Vec<usize> = (0..n).filter(|i| at[*i].1 == usize::MAX).collect();
    let out = db.outliers();
    check(out == single, || format!("outliers {out:?}, the single points are {single:?}"))?;
    let cs = db.centroids();
    check(cs.len() == lines, || format!("{} clusters for {lines} lines", cs.len()))?;
    let mut want: Vec<(u64, usize, f64)> = length.iter().map(|n| (0u64, *n, 0.0)).collect();
    for (i, p) in at.iter().enumerate() {
        if p.1 != usize::MAX {
            let t = &mut want[p.1];
            t.0 = t.0.wrapping_add(index_hash(i));
            t.2 += p.0 as f64 / t.1 as f64;
        }
    }
    for (k, c) in cs.iter().enumerate() {
        let l = want.iter().position(|t| t.0 == c.hash && t.1 == c.cnt);
        check(l.is_some(), || format!("cluster {k} with {} points around {:?} is none of the lines", c.cnt, c.c))?;
        let t = &mut want[l.unwrap()];
        check(db.count_at(k) == t.1, || format!("cluster {k} of {} points has the size {}", t.1, db.count_at(k)))?;
        check(close(c.c[axis].to(), t.2, 0.0, 4.0 * F::EPS * (n as f64 + 2.0) * (x as f64)), || format!("cluster {k} has its centroid at {}, the mean is {}", c.c[axis], t.2))?;
        t.0 = t.0.wrapping_add(1); // taken
    }
    for extra in 0..3 {
        check(db.count_at(lines + extra) == 0, || format!("identifier {} beyond the last centroid has a size", lines + extra))?;
    }
    Ok(())
}
fn wide_kmeans<F: Fl, const N: usize>(idx: u64, r: &mut Rng, info: &mut Info) -> Res {
    let (n, k) = match idx {
        0 | 1 => (66_000, 3),
        2 | 3 => (900, 300),
        _ => (r.us(500, 6_000), r.us(2, 40)),
    };
    let c: Vec<Vec<F>> = (0..n).map(|_| (0..N).map(|_| F::of(r.below(1000) as f64 / 8.0)).collect()).collect();
    let ds = points::<F, Tagged<F, N>>(&c);
    let m = metric(r);
    let pp = r.bool();
    let rng = TestRng(r.next());
    let limit = r.us(1, 3);
    info.input = format!("{} {}-d {:?} k {} {} generator {:#x} iteration limit {limit} points {}", F::NAME, N, m, k, if pp { "farthest-first" } else { "random" }, rng.0, fmt_pts(&c));
    info.nontrivial = true;
    let (cs, sizes) = km_fit(pp, rng, &ds, k, m, limit, F::of(0.0001));
    check(cs.len() == k, || format!("{} clusters for k = {k} and {n} points", cs.len()))?;
    check(sizes[..k].iter().sum::<usize>() == n && sizes[k] == 0, || format!("sizes {sizes:?} do not sum to {n}"))?;
    let mut hash = 0u64;
    for (i, c) in cs.iter().enumerate() {
        if sizes[i] > 0 {
            check(c.cnt == sizes[i], || format!("cluster {i} of size {} has the sum of {} points in its centroid", sizes[i], c.cnt))?;
            hash = hash.wrapping_add(c.hash);
        }
    }
    let all = (0..n).fold(0u64, |a, i| a.wrapping_add(index_hash(i)));
    check(hash == all, || "the clusters are not a partition of the points".into())?;
    for j in 0..N {
        let sum: f64 = (0..k).map(|i| cs[i].c[j].to() * sizes[i] as f64).sum();
        let want: f64 = c.iter().map(|p| p[j].to()).sum();
        check(close(sum, want, 4.0 * F::EPS * (n as f64 + 2.0), 0.0), || format!("coordinate {j}: the centroids stand for a sum of {sum}, the points sum to {want}"))?;
    }
    Ok(())
}

fn c05(idx: u64, r: &mut Rng, info: &mut Info) -> Res {
    if idx < WIDE {
        return if idx % 2 == 0 { wide_dbscan::<f64, 2>(idx, r, info) } else { wide_dbscan::<f32, 3>(idx, r, info) };
    }
    by_tagged!(idx, c05g(r, info))
}
fn c05g<F: Fl, const N: usize>(r: &mut Rng, info: &mut Info) -> Res {
    let d = density::<F, N>(r, info);
    let n = d.ds.len();
    let db = Db::fit(&d.ds, d.minp, d.eps, d.m);
    let cs = db.centroids();
    let out = db.outliers();
    info.nontrivial = !cs.is_empty();
    let mut seen = vec![0usize; n];
    for (ci, c) in cs.iter().enumerate() {
        let mem = c.members();
        check(!c.twice, || format!("a point was added to cluster {ci} twice"))?;
        check(!mem.is_empty(), || format!("cluster {ci} is empty"))?;
        check(db.count_at(ci) == mem.len(), || format!("cluster {ci} has size {} but its centroid is built from {:?}", db.count_at(ci), mem))?;
        mean_ok(&d.c, &mem, c).map_err(|e| format!("cluster {ci}: {e}"))?;
        for i in mem {
            seen[i] += 1;
        }
    }
    for extra in 0..3 {
        check(db.count_at(cs.len() + extra) == 0, || format!("identifier {} beyond the last centroid has a size", cs.len() + extra))?;
    }
    check(out.windows(2).all(|w| w[0] < w[1]), || format!("outliers not ascending and unique: {out:?}"))?;
    for i in &out {
        check(*i < n, || format!("outlier {i} out of range"))?;
        seen[*i] += 1;
    }
    for i in 0..n {
        check(seen[i] == 1, || format!("point {i} is accounted for {} times", seen[i]))?;
    }
    let total: usize = (0..cs.len()).map(|i| db.count_at(i)).sum::<usize>() + out.len();
    check(total == n, || format!("sizes and outliers add up to {total}, not {n}"))
}

#[derive(Clone)]
pub struct TestRng(pub u64);
impl RngCore for TestRng {
    fn next_u32(&mut self) -> u32 {
        self.next_u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        let mut r = Rng(self.0);
        let v = r.next();
        self.0 = r.0;
        v
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for b in dest {
            *b = self.next_u64() as u8;
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}

fn c14(idx: u64, r: &mut Rng, info: &mut Info) -> Res {
    if idx < WIDE {
        return if idx % 2 == 0 { wide_kmeans::<f64, 2>(idx, r, info) } else { wide_kmeans::<f32, 3>(idx, r, info) };
    }
    by_tagged!(idx, c14g(r, info))
}
fn c14g<F: Fl, const N: usize>(r: &mut Rng, info: &mut Info) -> Res {
    let n = size(r);
    let (c, kind) = coords::<F>(r, n, N, false);
    let ds = points::<F, Tagged<F, N>>(&c);
    let m = metric(r);
    let k = match r.below(10) {
        0 => 0,
        1 => n,
        2 => n + r.us(1, 5),
        3 => 1,
        _ => r.us(1, n.max(1).min(12)),
    };
    let pp = r.bool();
    let rng = TestRng(r.next());
    let tol = F::of(*r.pick(&[0.0001, 0.0001, 0.01, 0.1, 0.0, 1.0]));
    info.input = format!("{} {}-d {:?} k {} {} tolerance {} generator {:#x} geometry {} points {}", F::NAME, N, m, k, if pp { "farthest-first" } else { "random" }, tol, rng.0, kind, fmt_pts(&c));
    info.nontrivial = k >= 1 && k < n;
    if k == 0 {
        let (cs, _) = km_fit(pp, rng, &ds, k, m, 5, tol);
        return check(cs.is_empty(), || format!("k = 0 gives {} clusters", cs.len()));
    }
    let start = km_init(pp, rng.clone(), &ds, k, &m);
    let mut prev: Vec<Tagged<F, N>> = start;
    let mut before: Option<Vec<Tagged<F, N>>> = None;
    let limit = if k >= n { 1 } else { r.us(2, 12) };
    for it in 1..=limit {
        let (cs, sizes) = km_fit(pp, rng.clone(), &ds, k, m, it, tol);
        info.evals += 1;
        check(cs.len() == k.min(n), || format!("{} clusters for k = {k} and {n} points", cs.len()))?;
        check(sizes[..cs.len()].iter().sum::<usize>() == n && sizes[cs.len()] == 0, || format!("sizes {sizes:?} do not sum to {n}"))?;
        let mut seen = vec![usize::MAX; n];
        for (ci, ce) in cs.iter().enumerate() {
            let mem = ce.members();
            check(!ce.twice && mem.len() == sizes[ci], || format!("cluster {ci} of size {} has the sum of {:?} (counted twice: {}) in its centroid", sizes[ci], mem, ce.twice))?;
            if !mem.is_empty() {
                mean_ok(&c, &mem, ce).map_err(|e| format!("iteration limit {it}, cluster {ci}: {e}"))?;
            }
            for i in mem {
                check(seen[i] == usize::MAX, || format!("point {i} is in two clusters"))?;
                seen[i] = ci;
            }
        }
        check(seen.iter().all(|s| *s != usize::MAX), || "a point is in no cluster".into())?;
        if k >= n {
            for i in 0..n {
                check(sizes[i] == 1 && cs[i].members() == [i], || format!("with k >= n cluster {i} is {:?}", cs[i].members()))?;
                for j in 0..N {
                    check(cs[i].c[j] == ds[i].c[j], || format!("with k >= n centroid {i} is {:?}, point {:?}", cs[i].c, ds[i].c))?;
                }
            }
            return Ok(());
        }
        let mut step = Ok(());
        for i in 0..n {
            let own = m.measure(&ds[i], &prev[seen[i]]);
            let best = (0..k).map(|j| m.measure(&ds[i], &prev[j])).fold(own, |a, b| if b < a { b } else { a });
            if best < own {
                step = Err(format!("iteration {it}: point {i} is in cluster {} at distance {own} of the previous centroid although one is at {best}", seen[i]));
                break;
            }
        }
        if let Err(e) = step {
            // Not a step from the previous centroids: only right if iteration had ended before.
            let same = cs.iter().zip(&prev).all(|(a, b)| a.mask == b.mask && a.c == b.c);
            let Some(b4) = &before else { return Err(e) };
            check(same, || e.clone())?;
            for j in 0..k {
                if prev[j].members().is_empty() {
                    continue;
                }
                let moved = m.measure(&b4[j], &prev[j]);
                check(moved < tol, || format!("iteration ended after {} of {it} although the centroid of cluster {j} moved by {moved}, tolerance {tol}", it - 1))?;
            }
            return Ok(());
        }
        before = Some(prev);
        prev = cs;
    }
    Ok(())
}

fn c15(idx: u64, r: &mut Rng, info: &mut Info) -> Res {
    by_tagged!(idx, c15g(r, info))
}
fn c15g<F: Fl, const N: usize>(r: &mut Rng, info: &mut Info) -> Res {
    let n = size_wide(r);
    let (c, kind) = coords::<F>(r, n, N, false);
    let ds = points::<F, Tagged<F, N>>(&c);
    let m = metric(r);
    let k = match r.below(8) {
        0 => 0,
        1 => n,
        2 => n + r.us(1, 5),
        3 => n.saturating_sub(1),
        _ => r.us(0, n),
    };
    let k = if k < n { k.min(300) } else { k };
    let pp = r.bool();
    let rng = TestRng(r.next());
    info.input = format!("{} {}-d {:?} k {} {} generator {:#x} geometry {} points {}", F::NAME, N, m, k, if pp { "farthest-first" } else { "random" }, rng.0, kind, fmt_pts(&c));
    info.nontrivial = k >= 2 && k < n;
    let got = km_init(pp, rng, &ds, k, &m);
    check(got.len() == k.min(n), || format!("{} seeds for k = {k}, n = {n}", got.len()))?;
    let mut ids = vec![];
    for g in &got {
        let i = ds.iter().position(|p| p.hash == g.hash);
        check(i.is_some_and(|i| g.c == ds[i].c), || format!("seed {g:?} is not a data point"))?;
        ids.push(i.unwrap());
    }
    if k >= n {
        return check(ids == (0..n).collect::<Vec<_>>(), || format!("with k >= n the seeds are {ids:?}"));
    }
    if !pp {
        let mut s = ids.clone();
        s.sort();
        s.dedup();
        return check(s.len() == ids.len(), || format!("random seeds pick an entry twice: {ids:?}"));
    }
    for j in 1..ids.len() {
        let near = |i: usize| {
            ids[..j].iter().map(|s| m.measure(&ds[i], &ds[*s])).fold(F::of(f64::INFINITY), |a, b| if b < a { b } else { a })
        };
        let mine = near(ids[j]);
        for i in 0..n {
            check(near(i) <= mine, || format!("pick {j} is entry {} at distance {mine}, but entry {i} is at {} (picks {ids:?})", ids[j], near(i)))?;
        }
    }
    Ok(())
}
