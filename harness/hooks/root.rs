// Included into the crate under cfg(verif_hooks): re-exports and thin wrappers only, no logic.
pub use crate::color::lab::Lab;
pub use crate::color::rgba::Rgba;
pub use crate::color::white_point::{WhitePoint, D65};
pub use crate::color::xyz::XYZ;
pub use crate::math::distance::metric::DistanceMetric;
pub use crate::math::graph::edge::{Edge, WeightedEdge};
pub use crate::math::graph::spanning_tree::{MinimumSpanningTree, SpanningTree};
pub use crate::math::number::{Clamp, Float, Number};
pub use crate::math::point::{Point, Point2, Point3, Point5};

use crate::math::clustering::traits::Fit;
use crate::math::neighbors::nns::{Neighbor, NeighborSearch};

fn pairs<F: Float>(v: Vec<Neighbor<F>>) -> Vec<(usize, F)> {
    v.into_iter().map(|n| (n.index, n.distance)).collect()
}

pub struct Kd<'a, F: Float, P: Point<F>>(crate::math::neighbors::kdtree::KDTree<'a, F, P>);
impl<'a, F: Float, P: Point<F>> Kd<'a, F, P> {
    pub fn new(ds: &'a Vec<P>, m: &'a DistanceMetric) -> Self {
        Kd(crate::math::neighbors::kdtree::KDTree::new(ds, m))
    }
    pub fn search(&self, q: &P, k: usize) -> Vec<(usize, F)> {
        pairs(self.0.search(q, k))
    }
    pub fn nearest(&self, q: &P) -> Option<(usize, F)> {
        self.0.search_nearest(q).map(|n| (n.index, n.distance))
    }
    pub fn radius(&self, q: &P, r: F) -> Vec<(usize, F)> {
        pairs(self.0.search_radius(q, r))
    }
}

pub struct Lin<'a, F: Float, P: Point<F>>(crate::math::neighbors::linear::LinearSearch<'a, F, P>);
impl<'a, F: Float, P: Point<F>> Lin<'a, F, P> {
    pub fn new(ds: &'a Vec<P>, m: DistanceMetric) -> Self {
        Lin(crate::math::neighbors::linear::LinearSearch::new(ds, m))
    }
    pub fn search(&self, q: &P, k: usize) -> Vec<(usize, F)> {
        pairs(self.0.search(q, k))
    }
    pub fn nearest(&self, q: &P) -> Option<(usize, F)> {
        self.0.search_nearest(q).map(|n| (n.index, n.distance))
    }
    pub fn radius(&self, q: &P, r: F) -> Vec<(usize, F)> {
        pairs(self.0.search_radius(q, r))
    }
}

pub struct Db<F: Float, P: Point<F>>(crate::math::clustering::dbscan::algorithm::DBSCAN<F, P>);
impl<F: Float, P: Point<F>> Db<F, P> {
    pub fn fit(ds: &[P], min_points: usize, eps: F, m: DistanceMetric) -> Self {
        let params = crate::math::clustering::dbscan::params::Params::new(min_points, eps, m);
        Db(crate::math::clustering::dbscan::algorithm::DBSCAN::fit(ds, &params))
    }
    pub fn centroids(&self) -> Vec<P> {
        self.0.centroids()
    }
    pub fn count_at(&self, i: usize) -> usize {
        self.0.count_at(i)
    }
    pub fn outliers(&self) -> Vec<usize> {
        self.0.outliers()
    }
}

pub struct Core<F: Float>(crate::math::clustering::hdbscan::CoreDistance<F>);
impl<F: Float> Core<F> {
    pub fn new<P: Point<F>>(ds: &[P], min_samples: usize, m: &DistanceMetric) -> Self {
        Core(crate::math::clustering::hdbscan::CoreDistance::new(ds, min_samples, m))
    }
    pub fn at(&self, i: usize) -> F {
        self.0.distance_at(i)
    }
}

pub struct Uf(crate::math::clustering::hierarchical::UnionFind);
impl Uf {
    pub fn new(n: usize) -> Self {
        Uf(crate::math::clustering::hierarchical::UnionFind::new(n))
    }
    pub fn find(&mut self, x: usize) -> usize {
        self.0.find(x)
    }
    pub fn union(&mut self, x: usize, y: usize) -> usize {
        self.0.union(x, y)
    }
}

pub struct Hc<F: Float>(crate::math::clustering::hierarchical::HierarchicalClustering<F>);
impl<F: Float> Hc<F> {
    pub fn fit<T, W: Fn(usize, usize) -> F>(ds: &[T], w: W) -> Self {
        Hc(crate::math::clustering::hierarchical::HierarchicalClustering::fit(ds, w))
    }
    pub fn merges(&self) -> Vec<(usize, usize, F, usize)> {
        self.0.verif_merges()
    }
    pub fn partition(&self, k: usize) -> Vec<usize> {
        self.0.partition(k)
    }
}

fn initializer<R: rand::Rng + Clone>(
    pp: bool,
    rng: R,
) -> crate::math::clustering::kmeans::init::Initializer<R> {
    use crate::math::clustering::kmeans::init::Initializer;
    if pp {
        Initializer::KmeansPlusPlus(rng)
    } else {
        Initializer::Random(rng)
    }
}

pub fn km_init<F: Float, P: Point<F>, R: rand::Rng + Clone>(
    pp: bool,
    rng: R,
    ds: &[P],
    k: usize,
    m: &DistanceMetric,
) -> Vec<P> {
    initializer(pp, rng).initialize(ds, k, m)
}

/// (centroid, size) per cluster.
pub fn km_fit<F: Float, P: Point<F>, R: rand::Rng + Clone>(
    pp: bool,
    rng: R,
    ds: &[P],
    k: usize,
    m: DistanceMetric,
    iterations: usize,
    tolerance: F,
) -> (Vec<P>, Vec<usize>) {
    let params = crate::math::clustering::kmeans::params::KmeansParams::new(k, m, initializer(pp, rng))
        .with_max_iterations(iterations)
        .with_tolerance(tolerance);
    let km = crate::math::clustering::kmeans::algorithm::Kmeans::fit(ds, &params);
    let c = km.centroids();
    let n = (0..c.len() + 1).map(|i| km.count_at(i)).collect();
    (c, n)
}

pub struct El<F: Float>(crate::math::neighbors::kdtree::VerifElement<F>);
impl<F: Float> El<F> {
    pub fn new(i: usize, d: F) -> Self {
        El(crate::math::neighbors::kdtree::VerifElement::new(i, d))
    }
    pub fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        self.0.cmp(&o.0)
    }
    pub fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        self.0.partial_cmp(&o.0)
    }
    pub fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}

// Range constants and helpers that are crate-private in the colour types.
pub fn lab_bounds<F: Float>() -> [(F, F); 3] {
    [
        (Lab::<F>::min_l(), Lab::<F>::max_l()),
        (Lab::<F>::min_a(), Lab::<F>::max_a()),
        (Lab::<F>::min_b(), Lab::<F>::max_b()),
    ]
}
pub fn xyz_bounds<F: Float>() -> [(F, F); 3] {
    [
        (XYZ::<F>::min_x(), XYZ::<F>::max_x()),
        (XYZ::<F>::min_y(), XYZ::<F>::max_y()),
        (XYZ::<F>::min_z(), XYZ::<F>::max_z()),
    ]
}

pub fn clamp<T: Clamp>(v: T, lo: T, hi: T) -> T {
    <T as Clamp>::clamp(v, lo, hi)
}
