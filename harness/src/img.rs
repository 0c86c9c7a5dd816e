use crate::colour::{channel_ok, ref_decode, ref_lab, ref_lab_to_xyz, ref_rgb_to_xyz, ref_xyz_to_rgb, LAB, XYZB};
use crate::gen::*;
use crate::{Info, Prop, Res};
use auto_palette::image::ImageData;
use auto_palette::swatch::Swatch;
use auto_palette::verif_hooks::*;

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C01", rule: "synthetic images (bands, blocks, gradients, speckle, noise; strips and rectangles), the swatches compared with a reference clustering of the same pixels; non-trivial when the reference has at least two clusters, or one and some pixel outside", bound: "up to about 20,000 pixels per image; f64", quick: 500, thorough: 12_000, f: c01 },
        Prop { id: "C02", rule: "images as C01 and degenerate ones (no pixels, one pixel, extreme colours); non-trivial when at least one swatch is returned", bound: "up to about 20,000 pixels per image; f64", quick: 800, thorough: 20_000, f: c02 },
        Prop { id: "C03", rule: "the same image or point set processed repeatedly in this process and once in a second process; non-trivial when there are at least two clusters", bound: "up to about 20,000 pixels per image; 4 repetitions, 1 extra process", quick: 300, thorough: 6_000, f: c03 },
    ]
}

pub struct Img {
    pub data: Vec<u8>,
    pub w: u32,
    pub h: u32,
    pub what: String,
}

fn colour(r: &mut Rng) -> [u8; 3] {
    match r.below(4) {
        0 => [0, 1, 2].map(|_| if r.bool() { 255 } else { 0 }),
        1 => [0, 1, 2].map(|_| *r.pick(&[0u8, 64, 128, 192, 255])),
        _ => [0, 1, 2].map(|_| r.next() as u8),
    }
}

pub fn image(r: &mut Rng) -> Img {
    let (w, h) = match r.below(10) {
        0..=3 => (r.us(520, 2600), 1),
        4..=5 => (1, r.us(520, 2600)),
        6 => (r.us(300, 700), r.us(2, 4)),
        7 => (r.us(2, 4), r.us(300, 700)),
        8 => (r.us(40, 90), r.us(150, 300)),
        _ => (r.us(114, 150), r.us(114, 150)),
    };
    let m = r.us(1, 5);
    let cs: Vec<[u8; 3]> = (0..m).map(|_| colour(r)).collect();
    let kind = r.below(8);
    let cut: Vec<f64> = (0..m).map(|_| r.unit()).collect();
    let speckle = *r.pick(&[0u64, 0, 20, 100]);
    let jitter = r.us(0, 12) as i32;
    let by_y = h > w || (h > 1 && r.bool());
    let mut data = Vec::with_capacity(w * h * 4);
    for y in 0..h {
        for x in 0..w {
            let t = if by_y { y as f64 / h as f64 } else { x as f64 / w as f64 };
            let band = cut.iter().filter(|c| **c < t).count() % m;
            let mut c = match kind {
                0 => cs[band],
                1 => cs[((t * 7.0) as usize) % m],
                2 => {
                    // gradient
                    let (a, b) = (cs[0], cs[m - 1]);
                    [0, 1, 2].map(|i| (a[i] as f64 + (b[i] as f64 - a[i] as f64) * t).round() as u8)
                }
                3 => cs[band].map(|v| (v as i32 + r.us(0, 2 * jitter as usize) as i32 - jitter).clamp(0, 255) as u8),
                4 => cs[((x * 13 / w.max(1)) + (y * 7 / h.max(1))) % m],
                5 => cs[r.below(m as u64) as usize],
                6 => {
                    let g = (t * 255.0) as u8;
                    if band % 2 == 0 {
                        [g, 255 - g, cs[0][2]]
                    } else {
                        cs[band]
                    }
                }
                _ => cs[0],
            };
            if speckle > 0 && r.below(speckle) == 0 {
                c = [0, 1, 2].map(|_| r.next() as u8);
            }
            data.extend([c[0], c[1], c[2], if r.below(5) == 0 { r.next() as u8 } else { 255 }]);
        }
    }
    Img { data, w: w as u32, h: h as u32, what: format!("{w}x{h} kind {kind} colours {cs:?}") }
}

fn describe(i: &Img) -> String {
    // run-length form of the pixels, so that the replay file holds the whole image
    let mut s = format!("{} pixels (count*rgba): ", i.what);
    let px: Vec<&[u8]> = i.data.chunks(4).collect();
    let mut k = 0;
    while k < px.len() {
        let mut e = k;
        while e < px.len() && px[e] == px[k] {
            e += 1;
        }
        s.push_str(&format!("{}*{:02x}{:02x}{:02x}{:02x} ", e - k, px[k][0], px[k][1], px[k][2], px[k][3]));
        k = e;
    }
    s
}

struct Cl {
    sure: usize,
    maybe: usize,
    mean: [f64; 5],
}

/// Reference clustering of the image; None when a distance is too close to the radius to call.
fn reference(im: &Img) -> Result<Option<(Vec<Cl>, usize)>, String> {
    let (w, h) = (im.w as usize, im.h as usize);
    let n = w * h;
    let d = [100.0, 255.0, 255.0];
    let mut f: Vec<[f64; 5]> = Vec::with_capacity(n);
    for (i, p) in im.data.chunks(4).enumerate() {
        let xyz: XYZ<f64> = XYZ::from(&Rgba::new(p[0], p[1], p[2], p[3]));
        let lab: Lab<f64> = Lab::from(&xyz);
        let mut x = ref_rgb_to_xyz([0, 1, 2].map(|c| ref_decode(p[c] as f64 / 255.0)));
        for c in 0..3 {
            x[c] = x[c].min(XYZB[c].1);
        }
        let l = ref_lab(x);
        for (g, v) in [lab.l, lab.a, lab.b].iter().zip(l) {
            check((g - v).abs() <= 0.1, || format!("pixel {p:?} has Lab {lab}, the standards give {l:?}"))?;
        }
        f.push([lab.l / d[0], lab.a / d[1], lab.b / d[2], (i % w) as f64 / w as f64, (i / w) as f64 / h as f64]);
    }
    let (rad, minp) = (0.025f64, 25usize);
    let (wx, wy) = ((rad * w as f64) as usize + 1, (rad * h as f64) as usize + 1);
    let near = |i: usize, out: &mut Vec<usize>| -> bool {
        out.clear();
        let (x, y) = (i % w, i / w);
        for yy in y.saturating_sub(wy)..=(y + wy).min(h - 1) {
            for xx in x.saturating_sub(wx)..=(x + wx).min(w - 1) {
                let j = yy * w + xx;
                let s: f64 = (0..5).map(|c| (f[i][c] - f[j][c]) * (f[i][c] - f[j][c])).sum::<f64>().sqrt();
                if (s - rad).abs() < 1e-9 {
                    return false;
                }
                if s <= rad {
                    out.push(j);
                }
            }
        }
        true
    };
    let mut buf = vec![];
    let mut dense = vec![false; n];
    for i in 0..n {
        if !near(i, &mut buf) {
            return Ok(None);
        }
        dense[i] = buf.len() >= minp;
    }
    let mut comp = vec![usize::MAX; n];
    let mut m = 0;
    for i in 0..n {
        if dense[i] && comp[i] == usize::MAX {
            comp[i] = m;
            let mut st = vec![i];
            while let Some(x) = st.pop() {
                near(x, &mut buf);
                for &y in &buf {
                    if dense[y] && comp[y] == usize::MAX {
                        comp[y] = m;
                        st.push(y);
                    }
                }
            }
            m += 1;
        }
    }
    let mut cl: Vec<Cl> = (0..m).map(|_| Cl { sure: 0, maybe: 0, mean: [0.0; 5] }).collect();
    let mut outside = 0;
    for i in 0..n {
        let mut own: Vec<usize> = vec![];
        if dense[i] {
            own.push(comp[i]);
        } else {
            near(i, &mut buf);
            own = buf.iter().filter(|j| dense[**j]).map(|j| comp[*j]).collect();
            own.sort();
            own.dedup();
        }
        match own.len() {
            0 => outside += 1,
            1 => {
                let c = &mut cl[own[0]];
                c.sure += 1;
                for k in 0..5 {
                    c.mean[k] += f[i][k];
                }
            }
            _ => own.iter().for_each(|c| cl[*c].maybe += 1),
        }
    }
    for c in &mut cl {
        for k in 0..5 {
            c.mean[k] /= c.sure.max(1) as f64;
        }
    }
    Ok(Some((cl, outside)))
}

fn fits(s: &Swatch<f64>, c: &Cl, w: u32, h: u32, n: usize) -> bool {
    let count = s.percentage * n as f64;
    if count < c.sure as f64 - 1e-6 || count > (c.sure + c.maybe) as f64 + 1e-6 {
        return false;
    }
    if c.maybe > 0 {
        return true;
    }
    for (got, mean, size) in [(s.position.0, c.mean[3], w), (s.position.1, c.mean[4], h)] {
        let v = mean * size as f64;
        if got as f64 != (v - 1e-6).max(0.0).trunc() && got as f64 != (v + 1e-6).trunc() {
            return false;
        }
    }
    let lab = [0, 1, 2].map(|i| (c.mean[i] * [100.0, 255.0, 255.0][i]).clamp(LAB[i].0, LAB[i].1));
    let mut x = ref_lab_to_xyz(lab);
    for i in 0..3 {
        x[i] = x[i].clamp(XYZB[i].0, XYZB[i].1);
    }
    let lin = ref_xyz_to_rgb(x);
    channel_ok(lin[0], s.color.0, 0.06) && channel_ok(lin[1], s.color.1, 0.06) && channel_ok(lin[2], s.color.2, 0.06)
}

fn assign(i: usize, ok: &[Vec<bool>], seen: &mut [bool], own: &mut [Option<usize>]) -> bool {
    for c in 0..seen.len() {
        if ok[i][c] && !seen[c] {
            seen[c] = true;
            if own[c].is_none() || assign(own[c].unwrap(), ok, seen, own) {
                own[c] = Some(i);
                return true;
            }
        }
    }
    false
}

fn c01(_: u64, r: &mut Rng, info: &mut Info) -> Res {
    let im = image(r);
    info.input = describe(&im);
    let Some((cl, outside)) = reference(&im)? else {
        return Ok(());
    };
    info.nontrivial = cl.len() >= 2 || (cl.len() == 1 && outside > 0);
    let n = (im.w * im.h) as usize;
    let sw: Vec<Swatch<f64>> = ImageData::new(&im.data, im.w, im.h).extract();
    let show = || {
        let c: Vec<String> = cl.iter().map(|c| format!("{}+{} pixels at ({:.2},{:.2})", c.sure, c.maybe, c.mean[3] * im.w as f64, c.mean[4] * im.h as f64)).collect();
        format!("swatches {sw:?}; reference clusters {c:?}")
    };
    check(sw.len() == cl.len(), || format!("{} swatches for {} clusters; {}", sw.len(), cl.len(), show()))?;
    let ok: Vec<Vec<bool>> = sw.iter().map(|s| cl.iter().map(|c| fits(s, c, im.w, im.h, n)).collect()).collect();
    let mut own = vec![None; cl.len()];
    for i in 0..sw.len() {
        let mut seen = vec![false; cl.len()];
        check(assign(i, &ok, &mut seen, &mut own), || format!("swatch {i} matches no cluster of its own; {}", show()))?;
    }
    Ok(())
}

fn c02(idx: u64, r: &mut Rng, info: &mut Info) -> Res {
    let im = match r.below(12) {
        0 => {
            let (w, h) = *r.pick(&[(0u32, 0u32), (0, 5), (7, 0), (u32::MAX, 0)]);
            Img { data: vec![], w, h, what: format!("{w}x{h}") }
        }
        1 => {
            let (w, h) = (r.us(1, 9) as u32, r.us(1, 9) as u32);
            let data = (0..w * h * 4).map(|_| r.next() as u8).collect();
            Img { data, w, h, what: format!("{w}x{h} noise") }
        }
        _ => image(r),
    };
    info.input = describe(&im);
    let sw: Vec<Swatch<f64>> = ImageData::new(&im.data, im.w, im.h).extract();
    info.nontrivial = !sw.is_empty();
    let _ = idx;
    if im.data.is_empty() {
        return check(sw.is_empty(), || format!("no pixels but {sw:?}"));
    }
    let mut sum = 0.0;
    for s in &sw {
        check(s.position.0 < im.w && s.position.1 < im.h, || format!("position {:?} outside {}x{}", s.position, im.w, im.h))?;
        check(s.percentage > 0.0 && s.percentage <= 1.0, || format!("percentage {}", s.percentage))?;
        sum += s.percentage;
    }
    check(sum <= 1.0 + 1e-9, || format!("percentages sum to {sum}"))?;
    check(sw.windows(2).all(|p| p[0].percentage <= p[1].percentage), || {
        format!("percentages not ascending: {:?}", sw.iter().map(|s| s.percentage).collect::<Vec<_>>())
    })
}

fn dump_text(seed: u64) -> String {
    let mut r = Rng(seed);
    let im = image(&mut r);
    let sw: Vec<Swatch<f64>> = ImageData::new(&im.data, im.w, im.h).extract();
    format!("{sw:?}")
}

pub fn dump(a: &[String]) {
    println!("{}", dump_text(a[0].parse().unwrap()));
}

fn c03(idx: u64, r: &mut Rng, info: &mut Info) -> Res {
    if idx % 3 != 0 {
        return crate::by_tagged!(idx, c03p(r, info));
    }
    let seed = r.next();
    let im = image(&mut Rng(seed));
    info.input = describe(&im);
    let one: Vec<Swatch<f64>> = ImageData::new(&im.data, im.w, im.h).extract();
    info.nontrivial = one.len() >= 2;
    for _ in 0..3 {
        let two: Vec<Swatch<f64>> = ImageData::new(&im.data, im.w, im.h).extract();
        check(one == two, || format!("first {one:?}, then {two:?}"))?;
    }
    let out = std::process::Command::new(std::env::current_exe().unwrap())
        .args(["extract-dump", &seed.to_string()])
        .output()
        .map_err(|e| format!("second process: {e}"))?;
    let text = String::from_utf8_lossy(&out.stdout).trim().to_string();
    check(text == format!("{one:?}"), || format!("this process {one:?}, another {text}"))
}

fn c03p<F: Fl, const N: usize>(r: &mut Rng, info: &mut Info) -> Res {
    let n = r.us(0, 200);
    let (c, kind) = coords::<F>(r, n, N, false);
    let ds = points::<F, Tagged<F, N>>(&c);
    let m = metric(r);
    let eps = F::of(*r.pick(&[0.0, 0.05, 0.1, 0.3, 1.0]));
    let minp = r.us(1, 4);
    info.input = format!("{} {}-d {:?} radius {} minimum {} geometry {} points {}", F::NAME, N, m, eps, minp, kind, fmt_pts(&c));
    let read = |d: &Db<F, Tagged<F, N>>| -> Vec<(Vec<F>, [u64; WORDS], usize)> {
        d.centroids().iter().enumerate().map(|(i, p)| (p.c.to_vec(), p.mask, d.count_at(i))).collect()
    };
    let d1 = Db::fit(&ds, minp, eps, m);
    let one = read(&d1);
    info.nontrivial = one.len() >= 2;
    for (i, p) in d1.centroids().iter().enumerate() {
        check(p.members().len() == d1.count_at(i), || format!("centroid {i} is that of {:?} but size {i} is {}", p.members(), d1.count_at(i)))?;
    }
    for _ in 0..3 {
        let d2 = Db::fit(&ds, minp, eps, m);
        let two = read(&d2);
        check(one == two && d1.outliers() == d2.outliers(), || format!("first {one:?}, then {two:?}"))?;
    }
    Ok(())
}
