use auto_palette::verif_hooks::*;
use num_traits::Zero;
use std::fmt::{Debug, Display};
use std::ops::*;

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n.max(1)
    }
    pub fn us(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below((hi - lo + 1) as u64) as usize
    }
    pub fn unit(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn bool(&mut self) -> bool {
        self.next() & 1 == 1
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
}

pub trait Fl: Float + Display + Default + Send + Sync + std::fmt::LowerExp + 'static {
    const NAME: &'static str;
    const EPS: f64;
    fn of(x: f64) -> Self;
    fn to(self) -> f64;
    fn bits(r: &mut Rng) -> Self;
    fn nan(self) -> bool {
        self.to().is_nan()
    }
}
impl Fl for f32 {
    const NAME: &'static str = "f32";
    const EPS: f64 = f32::EPSILON as f64;
    fn of(x: f64) -> f32 {
        x as f32
    }
    fn to(self) -> f64 {
        self as f64
    }
    fn bits(r: &mut Rng) -> f32 {
        f32::from_bits(r.next() as u32)
    }
}
impl Fl for f64 {
    const NAME: &'static str = "f64";
    const EPS: f64 = f64::EPSILON;
    fn of(x: f64) -> f64 {
        x
    }
    fn to(self) -> f64 {
        self
    }
    fn bits(r: &mut Rng) -> f64 {
        f64::from_bits(r.next())
    }
}

pub trait Mk<F: Fl>: Point<F> + Send + Sync {
    const D: usize;
    fn mk(v: &[F]) -> Self;
    fn tag(&mut self, _i: usize) {}
}
impl<F: Fl> Mk<F> for Point2<F> {
    const D: usize = 2;
    fn mk(v: &[F]) -> Self {
        Point2(v[0], v[1])
    }
}
impl<F: Fl> Mk<F> for Point3<F> {
    const D: usize = 3;
    fn mk(v: &[F]) -> Self {
        Point3(v[0], v[1], v[2])
    }
}
impl<F: Fl> Mk<F> for Point5<F> {
    const D: usize = 5;
    fn mk(v: &[F]) -> Self {
        Point5(v[0], v[1], v[2], v[3], v[4])
    }
}

pub const WORDS: usize = 5;
pub const MAXTAG: usize = WORDS * 64;
/// A point that records which data points were added into it, so that the members of a cluster
/// can be read off its centroid without looking inside the clustering.
#[derive(Clone, Copy, Debug)]
pub struct Tagged<F: Fl, const N: usize> {
    pub c: [F; N],
    pub mask: [u64; WORDS],
    pub twice: bool,
    /// the same for any number of points: how many, and a sum of their hashes
    pub cnt: usize,
    pub hash: u64,
}
pub fn index_hash(i: usize) -> u64 {
    let mut r = Rng(i as u64);
    r.next();
    r.next()
}
impl<F: Fl, const N: usize> Tagged<F, N> {
    pub fn members(&self) -> Vec<usize> {
        (0..MAXTAG).filter(|i| self.mask[i / 64] >> (i % 64) & 1 == 1).collect()
    }
    fn merge(&mut self, o: &Self) {
        for w in 0..WORDS {
            if self.mask[w] & o.mask[w] != 0 {
                self.twice = true;
            }
            self.mask[w] |= o.mask[w];
        }
        self.twice |= o.twice;
        self.cnt += o.cnt;
        self.hash = self.hash.wrapping_add(o.hash);
    }
}
impl<F: Fl, const N: usize> Index<usize> for Tagged<F, N> {
    type Output = F;
    fn index(&self, i: usize) -> &F {
        &self.c[i]
    }
}
impl<F: Fl, const N: usize> Zero for Tagged<F, N> {
    fn zero() -> Self {
        Tagged { c: [F::zero(); N], mask: [0; WORDS], twice: false, cnt: 0, hash: 0 }
    }
    fn is_zero(&self) -> bool {
        self.c.iter().all(|x| x.is_zero())
    }
}
macro_rules! value_form {
    ($T:ident, $f:ident, $rhs:ty, $g:ident) => {
        impl<F: Fl, const N: usize> $T<$rhs> for Tagged<F, N> {
            type Output = Self;
            fn $f(mut self, o: $rhs) -> Self {
                self.$g(o);
                self
            }
        }
    };
}
value_form!(Add, add, Tagged<F, N>, add_assign);
value_form!(Sub, sub, Tagged<F, N>, sub_assign);
value_form!(Mul, mul, F, mul_assign);
value_form!(Div, div, F, div_assign);
impl<F: Fl, const N: usize> AddAssign for Tagged<F, N> {
    fn add_assign(&mut self, o: Self) {
        for j in 0..N {
            self.c[j] += o.c[j];
        }
        self.merge(&o);
    }
}
impl<F: Fl, const N: usize> SubAssign for Tagged<F, N> {
    fn sub_assign(&mut self, o: Self) {
        for j in 0..N {
            self.c[j] -= o.c[j];
        }
    }
}
impl<F: Fl, const N: usize> MulAssign<F> for Tagged<F, N> {
    fn mul_assign(&mut self, o: F) {
        for j in 0..N {
            self.c[j] *= o;
        }
    }
}
impl<F: Fl, const N: usize> DivAssign<F> for Tagged<F, N> {
    fn div_assign(&mut self, o: F) {
        for j in 0..N {
            self.c[j] /= o;
        }
    }
}
impl<F: Fl, const N: usize> Point<F> for Tagged<F, N> {
    fn dim(&self) -> usize {
        N
    }
    fn to_vec(&self) -> Vec<F> {
        self.c.to_vec()
    }
}
impl<F: Fl, const N: usize> Mk<F> for Tagged<F, N> {
    const D: usize = N;
    fn mk(v: &[F]) -> Self {
        let mut c = [F::zero(); N];
        c.copy_from_slice(v);
        Tagged { c, mask: [0; WORDS], twice: false, cnt: 0, hash: 0 }
    }
    fn tag(&mut self, i: usize) {
        if i < MAXTAG {
            self.mask[i / 64] |= 1 << (i % 64);
        }
        self.cnt = 1;
        self.hash = index_hash(i);
    }
}

/// Coordinates of `n` points in `d` dimensions, in one of several geometries.
pub fn coords<F: Fl>(r: &mut Rng, n: usize, d: usize, wild: bool) -> (Vec<Vec<F>>, usize) {
    let kinds = if wild { 13 } else { 9 };
    let kind = r.below(kinds) as usize;
    let m = r.us(1, 6) as u64;
    let centres: Vec<Vec<f64>> = (0..m).map(|_| (0..d).map(|_| r.unit()).collect()).collect();
    let fixed_axis = r.us(0, d - 1);
    let step = *r.pick(&[0.1, 0.25, 0.01, 0.5]);
    let mut out: Vec<Vec<F>> = Vec::with_capacity(n);
    for i in 0..n {
        let p: Vec<F> = (0..d)
            .map(|j| {
                F::of(match kind {
                    0 => r.below(4) as f64,
                    1 => r.below(12) as f64 - 6.0,
                    2 => r.unit(),
                    3 => r.unit() * 2.0 - 1.0,
                    4 => centres[(i as u64 % m) as usize][j] + (r.unit() - 0.5) * 0.1,
                    5 => {
                        if j == fixed_axis {
                            0.5
                        } else {
                            r.unit()
                        }
                    }
                    6 => r.below(10) as f64 * step,
                    7 => {
                        // a chain along a diagonal, with jitter on one axis
                        i as f64 * step + if j == fixed_axis { r.below(3) as f64 * step } else { 0.0 }
                    }
                    8 => (r.unit() * 1000.0 - 500.0).round() / 8.0,
                    9 => (r.unit() - 0.5) * 1e-30,
                    10 => (r.unit() - 0.5) * 1e30,
                    11 => (r.unit() - 0.5) * if F::EPS < 1e-10 { 1e-170 } else { 1e-25 },
                    _ => {
                        if r.below(4) == 0 {
                            (r.unit() - 0.5) * 1e3
                        } else {
                            (r.unit() - 0.5) * 1e-3
                        }
                    }
                })
            })
            .collect();
        out.push(p);
    }
    // duplicates
    if n > 2 && r.below(3) == 0 {
        for _ in 0..r.us(1, n / 2) {
            let (a, b) = (r.us(0, n - 1), r.us(0, n - 1));
            out[a] = out[b].clone();
        }
    }
    (out, kind)
}

pub fn points<F: Fl, P: Mk<F>>(c: &[Vec<F>]) -> Vec<P> {
    c.iter()
        .enumerate()
        .map(|(i, v)| {
            let mut p = P::mk(v);
            p.tag(i);
            p
        })
        .collect()
}

pub fn size(r: &mut Rng) -> usize {
    match r.below(20) {
        0 => 0,
        1 => 1,
        2 => 2,
        3 => 3,
        4..=9 => r.us(2, 9),
        10..=15 => r.us(5, 30),
        16..=18 => r.us(20, 90),
        _ => r.us(80, 260),
    }
}

/// Now and then a size beyond the limits that fit into a byte or a recursion budget.
pub fn size_wide(r: &mut Rng) -> usize {
    if r.below(1000) == 0 {
        r.us(520, 3000)
    } else {
        size(r)
    }
}

pub fn metric(r: &mut Rng) -> DistanceMetric {
    if r.bool() {
        DistanceMetric::Euclidean
    } else {
        DistanceMetric::SquaredEuclidean
    }
}

/// Distance by definition, computed here in double precision.
pub fn ref_dist<F: Fl>(a: &[F], b: &[F], m: &DistanceMetric) -> f64 {
    let s: f64 = a.iter().zip(b).map(|(x, y)| (x.to() - y.to()) * (x.to() - y.to())).sum();
    match m {
        DistanceMetric::Euclidean => s.sqrt(),
        DistanceMetric::SquaredEuclidean => s,
    }
}

pub fn close(a: f64, b: f64, rel: f64, abs: f64) -> bool {
    a == b || (a - b).abs() <= abs + rel * a.abs().max(b.abs())
}

pub fn check(c: bool, m: impl FnOnce() -> String) -> Result<(), String> {
    if c {
        Ok(())
    } else {
        Err(m())
    }
}

pub fn fmt_pts<F: Fl>(c: &[Vec<F>]) -> String {
    format!("{:?}", c)
}

#[macro_export]
macro_rules! by_type {
    // Dispatch on a selector over float type x point dimension.
    ($sel:expr, $f:ident ( $($a:expr),* )) => {
        match $sel % 6 {
            0 => $f::<f64, auto_palette::verif_hooks::Point2<f64>>($($a),*),
            1 => $f::<f64, auto_palette::verif_hooks::Point3<f64>>($($a),*),
            2 => $f::<f64, auto_palette::verif_hooks::Point5<f64>>($($a),*),
            3 => $f::<f32, auto_palette::verif_hooks::Point2<f32>>($($a),*),
            4 => $f::<f32, auto_palette::verif_hooks::Point3<f32>>($($a),*),
            _ => $f::<f32, auto_palette::verif_hooks::Point5<f32>>($($a),*),
        }
    };
}


#[macro_export]
macro_rules! by_tagged {
    ($sel:expr, $f:ident ( $($a:expr),* )) => {
        match $sel % 4 {
            0 => $f::<f64, 2>($($a),*),
            1 => $f::<f32, 2>($($a),*),
            2 => $f::<f64, 3>($($a),*),
            _ => $f::<f64, 5>($($a),*),
        }
    };
}
