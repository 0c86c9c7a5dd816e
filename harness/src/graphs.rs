use crate::gen::*;
use crate::{Info, Prop, Res};
use auto_palette::verif_hooks::*;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C10", rule: "random symmetric weight matrices (small integers with ties, reals, negative, distances, infinities, all equal), f32 and f64; non-trivial with 3 or more vertices", bound: "up to 48 vertices, one in 3000 up to 400", quick: 150_000, thorough: 3_000_000, f: c10 },
        Prop { id: "C11", rule: "random sequences of finds and unions against an explicit partition; non-trivial with 2 or more unions", bound: "up to 60 elements, one in 400 up to 400, up to 4 finds between unions", quick: 150_000, thorough: 3_000_000, f: c11 },
        Prop { id: "C12", rule: "random weight matrices as C10; the merges are replayed against single-linkage chains; non-trivial with 3 or more points", bound: "up to 48 points, one in 3000 up to 400", quick: 150_000, thorough: 3_000_000, f: c12 },
        Prop { id: "C13", rule: "random weight matrices as C10, every k from 0 to n and one above; non-trivial with 3 or more points", bound: "up to 48 points, one in 3000 up to 400", quick: 150_000, thorough: 3_000_000, f: c13 },
    ]
}

fn weights<F: Fl>(r: &mut Rng, info: &mut Info) -> (usize, Vec<Vec<F>>) {
    let n = match r.below(10) {
        0 => r.us(0, 2),
        1..=5 => r.us(2, 9),
        6..=8 => r.us(5, 24),
        _ if r.below(300) == 0 => r.us(60, 400),
        _ => r.us(20, 48),
    };
    let kind = r.below(12);
    // a scale for the near ties: neighbouring values of the type, or differences lost by a narrower type
    let step = *r.pick(&[f64::EPSILON, 1e-15, 1e-12, 1e-9, F::EPS, 4.0 * F::EPS]);
    let pos: Vec<f64> = (0..n).map(|_| r.unit() * 10.0).collect();
    let mut w = vec![vec![F::zero(); n]; n];
    for i in 0..n {
        for j in 0..i {
            let x = match kind {
                0 => r.below(3) as f64,
                1 => r.below(10) as f64 - 5.0,
                2 => r.unit(),
                3 => (pos[i] - pos[j]).abs(),
                4 => 1.0,
                5 => {
                    if r.below(6) == 0 {
                        f64::INFINITY
                    } else {
                        r.unit()
                    }
                }
                6 => {
                    if r.below(8) == 0 {
                        f64::NEG_INFINITY
                    } else {
                        r.below(4) as f64
                    }
                }
                7 => (r.unit() - 0.5) * 1e30,
                9 => 1.0 + r.below(6) as f64 * step,
                10 => r.below(6) as f64 * step * 0.25,
                11 => (r.unit() + r.below(2) as f64) * 1e-30,
                _ => {
                    // one group per residue, far apart
                    if i % 3 == j % 3 {
                        r.unit()
                    } else {
                        100.0 + r.unit()
                    }
                }
            };
            w[i][j] = F::of(x);
            w[j][i] = w[i][j];
        }
    }
    info.nontrivial = n >= 3;
    let tri: Vec<&[F]> = (0..n).map(|i| &w[i][..i]).collect();
    info.input = format!("{} {} vertices, lower triangle {:?}", F::NAME, n, tri);
    (n, w)
}

/// minimax[u][v] = least t such that a chain of weights at most t joins u and v.
fn minimax<F: Fl>(n: usize, w: &[Vec<F>]) -> Vec<Vec<F>> {
    let mut b = w.to_vec();
    for k in 0..n {
        for i in 0..n {
            for j in 0..n {
                if i != j && i != k && j != k {
                    let m = if b[i][k] > b[k][j] { b[i][k] } else { b[k][j] };
                    if m < b[i][j] {
                        b[i][j] = m;
                    }
                }
            }
        }
    }
    b
}

fn c10(idx: u64, r: &mut Rng, info: &mut Info) -> Res {
    if idx % 2 == 0 {
        c10g::<f64>(r, info)
    } else {
        c10g::<f32>(r, info)
    }
}
fn c10g<F: Fl>(r: &mut Rng, info: &mut Info) -> Res {
    let (n, w) = weights::<F>(r, info);
    let vs: Vec<u8> = vec![0; n];
    let t = MinimumSpanningTree::build(&vs, |a, b| w[a][b]);
    let es = t.edges();
    check(es.len() == n.saturating_sub(1), || format!("{} edges for {n} vertices", es.len()))?;
    let mut label: Vec<usize> = (0..n).collect();
    let mut sum = 0.0f64;
    let mut mag = 0.0f64;
    let mut adj: Vec<Vec<(usize, F)>> = vec![vec![]; n];
    for e in es {
        let (u, v) = (e.u(), e.v());
        check(u < n && v < n && u != v, || format!("edge ({u},{v}) is not between two vertices"))?;
        check(e.weight() == w[u][v], || format!("edge ({u},{v}) has weight {}, the function gives {}", e.weight(), w[u][v]))?;
        check(label[u] != label[v], || format!("edge ({u},{v}) closes a cycle"))?;
        let (from, to) = (label[u], label[v]);
        for l in label.iter_mut() {
            if *l == from {
                *l = to;
            }
        }
        adj[u].push((v, e.weight()));
        adj[v].push((u, e.weight()));
        sum += e.weight().to();
        mag += e.weight().to().abs();
    }
    let tw = t.weight().to();
    if n == 0 {
        check(tw == 0.0, || format!("no vertices but weight {tw}"))?;
    }
    if mag.is_finite() {
        check(close(tw, sum, 0.0, (n as f64 + 2.0) * F::EPS * mag), || format!("reported weight {tw}, edges sum to {sum}"))?;
    } else if !sum.is_nan() {
        check(tw == sum, || format!("reported weight {tw}, edges sum to {sum}"))?;
    }
    for s in 0..n {
        let mut best: Vec<Option<F>> = vec![None; n];
        let mut st = vec![(s, F::of(f64::NEG_INFINITY), usize::MAX)];
        while let Some((x, b, p)) = st.pop() {
            best[x] = Some(b);
            for &(y, we) in &adj[x] {
                if y != p {
                    st.push((y, if we > b { we } else { b }, x));
                }
            }
        }
        for v in 0..n {
            if v != s {
                let b = best[v].ok_or_else(|| format!("vertices {s} and {v} are not joined"))?;
                check(b <= w[s][v], || format!("vertices {s} and {v} are joined over an edge of weight {b}, directly {}", w[s][v]))?;
            }
        }
    }
    Ok(())
}

fn c11(_idx: u64, r: &mut Rng, info: &mut Info) -> Res {
    let n = match r.below(4) {
        0 => r.us(1, 4),
        1..=2 => r.us(2, 14),
        _ if r.below(100) == 0 => r.us(60, 400),
        _ => r.us(10, 60),
    };
    let mut uf = Uf::new(n);
    let mut group: Vec<usize> = (0..2 * n).collect(); // node -> current root
    let mut size: Vec<usize> = (0..2 * n).map(|i| usize::from(i < n)).collect();
    let mut created = n;
    let mut log = format!("n {n}:");
    let unions = r.us(0, n - 1);
    let chain = r.below(3);
    let finds = *r.pick(&[4usize, 4, 1, 0]);
    let res = (|| -> Res {
        for s in 0..=unions {
            for _ in 0..r.us(0, finds) {
                let x = r.us(0, created - 1);
                log.push_str(&format!(" find {x}"));
                let got = uf.find(x);
                check(got == group[x], || format!("find({x}) is {got}, expected {}", group[x]))?;
                let again = uf.find(got);
                check(again == got, || format!("root {got} of {x} is not a fixed point: find gives {again}"))?;
            }
            if s == unions {
                break;
            }
            let mut roots: Vec<usize> = (0..n).map(|i| group[i]).collect();
            roots.sort();
            roots.dedup();
            let a = if chain == 0 { *roots.last().unwrap() } else { *r.pick(&roots) };
            let b = loop {
                let b = *r.pick(&roots);
                if b != a {
                    break b;
                }
            };
            let (a, b) = if r.bool() { (a, b) } else { (b, a) };
            log.push_str(&format!(" union {a} {b}"));
            let got = uf.union(a, b);
            let want = size[a] + size[b];
            check(got == want, || format!("union({a},{b}) returns {got}, the merged group has {want}"))?;
            size[created] = want;
            for g in group.iter_mut() {
                if *g == a || *g == b {
                    *g = created;
                }
            }
            created += 1;
        }
        for x in 0..created {
            let got = uf.find(x);
            check(got == group[x], || format!("finally find({x}) is {got}, expected {}", group[x]))?;
        }
        Ok(())
    })();
    info.evals = 1;
    info.nontrivial = unions >= 2;
    info.input = log;
    res
}

struct Merged {
    // per merge: members of the group it makes
    members: Vec<Vec<usize>>,
}

fn replay<F: Fl>(n: usize, ms: &[(usize, usize, F, usize)]) -> Result<Merged, String> {
    check(ms.len() == n - 1, || format!("{} merges for {n} points", ms.len()))?;
    let mut used = vec![false; 2 * n];
    let mut members: Vec<Vec<usize>> = (0..n).map(|i| vec![i]).collect();
    for (i, (l, rr, w, s)) in ms.iter().enumerate() {
        check(*l != *rr && *l < n + i && *rr < n + i, || format!("merge {i} joins {l} and {rr}"))?;
        check(!used[*l] && !used[*rr], || format!("merge {i} joins {l} and {rr}, one of which was merged before"))?;
        used[*l] = true;
        used[*rr] = true;
        if i > 0 {
            check(ms[i - 1].2 <= *w, || format!("merge {i} has weight {w} below the previous {}", ms[i - 1].2))?;
        }
        let mut g = members[*l].clone();
        g.extend(&members[*rr]);
        check(g.len() == *s, || format!("merge {i} records size {s}, the group has {} points", g.len()))?;
        members.push(g);
    }
    Ok(Merged { members })
}

fn c12(idx: u64, r: &mut Rng, info: &mut Info) -> Res {
    if idx % 2 == 0 {
        c12g::<f64>(r, info)
    } else {
        c12g::<f32>(r, info)
    }
}
fn c12g<F: Fl>(r: &mut Rng, info: &mut Info) -> Res {
    let (n, w) = weights::<F>(r, info);
    if n == 0 {
        return Ok(());
    }
    let vs: Vec<u8> = vec![0; n];
    let h = Hc::fit(&vs, |a, b| w[a][b]);
    let ms = h.merges();
    let g = replay(n, &ms)?;
    let mm = minimax(n, &w);
    // join weight of each pair = weight of the first merge holding both
    let mut at = vec![vec![None; n]; n];
    for (i, m) in ms.iter().enumerate() {
        for &a in &g.members[m.0] {
            for &b in &g.members[m.1] {
                at[a][b] = Some(i);
                at[b][a] = Some(i);
            }
        }
    }
    for a in 0..n {
        for b in 0..a {
            let i = at[a][b].ok_or_else(|| format!("points {a} and {b} are never joined"))?;
            check(ms[i].2 == mm[a][b], || format!("points {a} and {b} are joined at weight {}, chains join them at {}", ms[i].2, mm[a][b]))?;
        }
    }
    Ok(())
}

fn c13(idx: u64, r: &mut Rng, info: &mut Info) -> Res {
    if idx % 2 == 0 {
        c13g::<f64>(r, info)
    } else {
        c13g::<f32>(r, info)
    }
}
fn c13g<F: Fl>(r: &mut Rng, info: &mut Info) -> Res {
    let (n, w) = weights::<F>(r, info);
    if n == 0 {
        return Ok(());
    }
    let vs: Vec<u8> = vec![0; n];
    let h = Hc::fit(&vs, |a, b| w[a][b]);
    let ms = h.merges();
    let g = replay(n, &ms)?;
    let mut group: Vec<usize> = (0..n).collect();
    // from k = n (no merge) down to k = 1
    for k in (1..=n).rev() {
        if k < n {
            let i = n - k - 1;
            for &x in &g.members[n + i] {
                group[x] = n + i;
            }
        }
        let lab = h.partition(k);
        info.evals += 1;
        check(lab.len() == n, || format!("k {k}: {} labels", lab.len()))?;
        let mut used = vec![false; k];
        for &l in &lab {
            check(l < k, || format!("k {k}: label {l}"))?;
            used[l] = true;
        }
        check(used.iter().all(|x| *x), || format!("k {k}: labels {lab:?} leave one unused"))?;
        for a in 0..n {
            for b in 0..a {
                check((lab[a] == lab[b]) == (group[a] == group[b]), || {
                    format!("k {k}: points {a} and {b} have labels {} and {}, first {} merges join them: {}", lab[a], lab[b], n - k, group[a] == group[b])
                })?;
            }
        }
    }
    check(h.partition(0).iter().all(|l| *l == 0) && h.partition(0).len() == n, || "k = 0 is not one group 0".into())?;
    let above = n + 1 + r.us(0, 3);
    check(catch_unwind(AssertUnwindSafe(|| h.partition(above))).is_err(), || format!("k = {above} above n = {n} is accepted"))
}
