verus! {
// ---- whole numbers, products and quotients of any size
#[verifier::opaque]
pub open spec fn ireal(n: int) -> real { n as real }
pub open spec fn unit() -> real { 0.00000000000000012real }
/// r is the product of a and b, rounded.
#[verifier::opaque]
pub open spec fn prod(r: real, a: real, b: real) -> bool { near(r, a * b, unit() * absr(a * b) + 0.0000000000000000000001real) }
/// r is the quotient of a by b, rounded.
#[verifier::opaque]
pub open spec fn quot(r: real, a: real, b: real) -> bool { near(r * b, a, unit() * absr(a) + 0.0000000000000000000001real) }
pub broadcast axiom fn ax_int(n: int)
    requires 0 <= n <= 9007199254740992,
    ensures fin(#[trigger] fint(n)), val(fint(n)) == ireal(n);
pub broadcast axiom fn ax_product(a: F, b: F)
    requires fin(a), fin(b), -100real <= val(a) <= 100real, 0real <= val(b) <= 5000000000real,
    ensures fin(#[trigger] fmul(a, b)), prod(val(fmul(a, b)), val(a), val(b));
pub broadcast axiom fn ax_quotient(a: F, b: F)
    requires fin(a), fin(b), -10000000000real <= val(a) <= 10000000000real, 0.5real <= val(b) <= 10000000000real,
    ensures fin(#[trigger] fdiv(a, b)), quot(val(fdiv(a, b)), val(a), val(b)),
        val(a) >= 0real ==> val(fdiv(a, b)) >= 0real, val(a) <= val(b) ==> val(fdiv(a, b)) <= 1real, val(a) >= 1real ==> val(fdiv(a, b)) > 0real;
pub axiom fn ax_sum(a: F, b: F)
    requires fin(a), fin(b), -10000000000real <= val(a) <= 10000000000real, -10000000000real <= val(b) <= 10000000000real,
    ensures fin(fadd(a, b)), near(val(fadd(a, b)), val(a) + val(b), unit() * absr(val(a) + val(b)));
impl F {
    /// num_traits: the integer part, for values above -1 that fit.
    #[verifier::external_body]
    pub fn to_u32(&self) -> (r: Option<u32>)
        ensures fin(*self) && -1real < val(*self) && val(*self) < 4294967296real ==> r is Some && (ireal(r->0 as int) <= val(*self) || r->0 == 0) && val(*self) < ireal(r->0 as int) + 1real,
    { unimplemented!() }
}
/// The conversions, as their contracts describe them.
pub open spec fn rgba_to_xyz(c: Rgba, p: XYZ) -> bool {
    &&& xyz_ok(p)
    &&& near(val(p.x), rclamp(srgb_x(c), 0real, 0.950456real), $SRGBreal)
    &&& near(val(p.y), rclamp(srgb_y(c), 0real, 1real), $SRGBreal)
    &&& near(val(p.z), rclamp(srgb_z(c), 0real, 1.088644real), $SRGBreal)
}
pub open spec fn xyz_to_lab(p: XYZ, q: Lab) -> bool {
    &&& lab_ok(q)
    &&& near(val(q.l), rclamp(cie_l(val(p.x), val(p.y), val(p.z)), 0real, 100real), $LABLreal)
    &&& near(val(q.a), rclamp(cie_a(val(p.x), val(p.y), val(p.z)), -128real, 127real), $LABAreal)
    &&& near(val(q.b), rclamp(cie_b(val(p.x), val(p.y), val(p.z)), -128real, 127real), $LABCreal)
}
pub open spec fn lab_to_xyz(q: Lab, p: XYZ) -> bool {
    &&& xyz_ok(p)
    &&& near(val(p.x), rclamp(cie_x(val(q.l), val(q.a), val(q.b)), 0real, 0.950456real), $FROMLABreal)
    &&& near(val(p.y), rclamp(cie_y(val(q.l), val(q.a), val(q.b)), 0real, 1real), $FROMLABreal)
    &&& near(val(p.z), rclamp(cie_z(val(q.l), val(q.a), val(q.b)), 0real, 1.088644real), $FROMLABreal)
}
pub open spec fn xyz_to_rgba(p: XYZ, r: Rgba) -> bool {
    let (x, y, z) = (val(p.x), val(p.y), val(p.z));
    &&& r.a == 255
    &&& near(breal(r.r), 255real * rclamp(srgb_encode(linear_r(x, y, z)), 0real, 1real), $CHANreal)
    &&& near(breal(r.g), 255real * rclamp(srgb_encode(linear_g(x, y, z)), 0real, 1real), $CHANreal)
    &&& near(breal(r.b), 255real * rclamp(srgb_encode(linear_b(x, y, z)), 0real, 1real), $CHANreal)
}
/// The colours the conversions take, as `From` tells them apart.
pub trait Colour { 
    spec fn fit_(&self) -> bool;
    spec fn xyz_(&self, r: XYZ) -> bool;
    fn to_xyz(&self) -> (r: XYZ) requires self.fit_() ensures self.xyz_(r);
}
impl Colour for Rgba {
    open spec fn fit_(&self) -> bool { true }
    open spec fn xyz_(&self, r: XYZ) -> bool { rgba_to_xyz(*self, r) }
    fn to_xyz(&self) -> XYZ { XYZ::from_rgba(self) }
}
impl Colour for Lab {
    open spec fn fit_(&self) -> bool { lab_ok(*self) }
    open spec fn xyz_(&self, r: XYZ) -> bool { lab_to_xyz(*self, r) }
    fn to_xyz(&self) -> XYZ { XYZ::from_lab(self) }
}
impl XYZ {
    pub fn from<C: Colour>(c: &C) -> (r: XYZ)
        requires c.fit_(),
        ensures c.xyz_(r),
    { c.to_xyz() }
}
impl Lab {
    pub fn from(c: &XYZ) -> (r: Lab)
        requires xyz_ok(*c),
        ensures xyz_to_lab(*c, r),
    { Lab::from_xyz(c) }
}
impl Rgba {
    pub fn from(c: &XYZ) -> (r: Rgba)
        requires xyz_ok(*c),
        ensures xyz_to_rgba(*c, r),
    { Rgba::from_xyz(c) }
//@fn Rgba::new
    ensures r.r == r_, r.g == g, r.b == b, r.a == a,
//@ret r
//@names r_ g b a
//@end
}

// ---- points
//@struct Point5 #[derive(Clone, Copy)]
pub open spec fn c5(p: Point5) -> Seq<F> { seq![p.0, p.1, p.2, p.3, p.4] }
impl Point5 {
//@fn Point5::new
    ensures r == Point5(v, w, x, y, z),
//@names v w x y z
//@end
}
impl IndexSpecImpl<usize> for Point5 {
    open spec fn index_req(&self, index: &usize) -> bool { *index < 5 }
}
impl core::ops::Index<usize> for Point5 {
    type Output = F;
//@fn Point5::index
    ensures *r == c5(*self)[index as int],
//@vis
//@names index
//@end
}
#[verifier::external_body]
pub fn take_at<T>(v: &Vec<T>, i: usize) -> (r: T)
    requires i < v@.len(),
    ensures r == v@[i as int],
{ unimplemented!() }

// ---- density-based clustering, as contracted in u_dbscan
//@struct DistanceMetric
//@struct Params
impl Params {
//@fn Params::new
    ensures r.min_points == min_points, r.epsilon == epsilon, r.metric == metric,
//@names min_points epsilon metric
//@end
}
/// The clusters of the points (u_dbscan: well_grouped), in the order of their first dense member, each with its members in
/// ascending order. u_dbscan: theorem_same shows that the points determine them.
pub uninterp spec fn clusters(d: Seq<Point5>, p: Params) -> Seq<Seq<usize>>;
pub open spec fn partition(g: Seq<Seq<usize>>, n: int) -> bool {
    &&& forall|k: int| #![trigger g[k]] 0 <= k < g.len() ==> g[k].len() > 0 && g[k].no_duplicates()
    &&& forall|k: int, i: int| #![trigger g[k][i]] 0 <= k < g.len() && 0 <= i < g[k].len() ==> g[k][i] < n
    &&& forall|k: int, l: int, i: int, j: int| #![trigger g[k][i], g[l][j]] 0 <= k < g.len() && 0 <= l < g.len() && 0 <= i < g[k].len() && 0 <= j < g[l].len() && g[k][i] == g[l][j] ==> k == l
}
/// The sum of a component in index order, and the mean.
pub open spec fn csum(d: Seq<Point5>, s: Seq<usize>, j: int) -> F
    decreases s.len()
{
    if s.len() == 0 { fzero() } else { fadd(csum(d, s.drop_last(), j), c5(d[s.last() as int])[j]) }
}
pub open spec fn cmean(d: Seq<Point5>, s: Seq<usize>, j: int) -> F { fdiv(csum(d, s, j), fint(s.len() as int)) }
#[verifier::external_body]
pub struct DBSCAN { x: usize }
pub uninterp spec fn groups(c: &DBSCAN) -> Seq<Seq<usize>>;
pub uninterp spec fn points(c: &DBSCAN) -> Seq<Point5>;
pub open spec fn pfin(p: Point5) -> bool { fin(p.0) && fin(p.1) && fin(p.2) && fin(p.3) && fin(p.4) }
impl DBSCAN {
    // u_dbscan: theorem_grouping
    #[verifier::external_body]
    pub fn fit(dataset: &[Point5], params: &Params) -> (r: DBSCAN)
        requires forall|i: int| #![trigger dataset@[i]] 0 <= i < dataset@.len() ==> pfin(dataset@[i]),
            fin(params.epsilon), val(params.epsilon) >= 0real, params.min_points >= 1,
        ensures points(&r) == dataset@, groups(&r) == clusters(dataset@, *params), partition(groups(&r), dataset@.len() as int), groups(&r).len() <= usize::MAX,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn centroids(&self) -> (r: Vec<Point5>)
        ensures r@.len() == groups(self).len(),
            forall|k: int, j: int| #![trigger c5(r@[k])[j]] 0 <= k < r@.len() && 0 <= j < 5 ==> c5(r@[k])[j] == cmean(points(self), groups(self)[k], j),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn count_at(&self, cluster_id: usize) -> (r: usize)
        ensures r == if cluster_id < groups(self).len() { groups(self)[cluster_id as int].len() } else { 0 },
    { unimplemented!() }
}

// ---- swatches and their order
//@struct Swatch
impl Swatch {
//@fn Swatch::partial_cmp
    ensures r == fcmp(self.percentage, other.percentage),
//@names other
//@end
//@fn Swatch::cmp
    ensures r == swatch_cmp(*self, *other),
//@names other
//@end
}
pub open spec fn swatch_cmp(a: Swatch, b: Swatch) -> Ordering { match fcmp(a.percentage, b.percentage) { Some(o) => o, None => Ordering::Equal } }
impl PartialEqSpecImpl for Swatch {
    open spec fn obeys_eq_spec() -> bool { false }
    open spec fn eq_spec(&self, rhs: &Swatch) -> bool { true }
}
impl PartialEq for Swatch { #[verifier::external_body] fn eq(&self, rhs: &Swatch) -> bool { unimplemented!() } }
impl Eq for Swatch {}
impl PartialOrdSpecImpl for Swatch {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, rhs: &Swatch) -> Option<Ordering> { fcmp(self.percentage, rhs.percentage) }
}
impl PartialOrd for Swatch { fn partial_cmp(&self, rhs: &Swatch) -> Option<Ordering> { Swatch::partial_cmp(self, rhs) } }
impl OrdSpecImpl for Swatch {
    open spec fn obeys_cmp_spec() -> bool { true }
    open spec fn cmp_spec(&self, rhs: &Swatch) -> Ordering { swatch_cmp(*self, *rhs) }
}
impl Ord for Swatch { fn cmp(&self, rhs: &Swatch) -> Ordering { Swatch::cmp(self, rhs) } }
/// The order is total on the elements of s.
pub open spec fn total<T: Ord>(s: Seq<T>) -> bool {
    &&& forall|i: int, j: int| #![trigger s[i].cmp_spec(&s[j])] 0 <= i < s.len() && 0 <= j < s.len() ==> (s[i].cmp_spec(&s[j]) == Ordering::Less <==> s[j].cmp_spec(&s[i]) == Ordering::Greater)
    &&& forall|i: int, j: int, k: int| #![trigger s[i].cmp_spec(&s[j]), s[j].cmp_spec(&s[k])] 0 <= i < s.len() && 0 <= j < s.len() && 0 <= k < s.len()
            && s[i].cmp_spec(&s[j]) != Ordering::Greater && s[j].cmp_spec(&s[k]) != Ordering::Greater ==> s[i].cmp_spec(&s[k]) != Ordering::Greater
}
pub open spec fn ascending<T: Ord>(s: Seq<T>) -> bool {
    forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() ==> s[i].cmp_spec(&s[j]) != Ordering::Greater
}
/// What a stable sort makes of s: a function of s alone.
pub uninterp spec fn stable_order<T: Ord>(s: Seq<T>) -> Seq<T>;
pub open spec fn stably_sorted<T: Ord>(s: Seq<T>) -> Seq<T> { if s.len() == 0 { s } else { stable_order(s) } }
pub assume_specification<T: Ord> [<[T]>::sort](s: &mut [T])
    requires T::obeys_cmp_spec(), total(old(s)@),
    ensures final(s)@.to_multiset() == old(s)@.to_multiset(), final(s)@.len() == old(s)@.len(), ascending(final(s)@), final(s)@ == stably_sorted(old(s)@);

// ---- what a swatch says
//@struct ImageData
pub open spec fn count(im: &ImageData) -> int { im.width as int * im.height as int }
/// The data is there, and the rounding error of a mean stays below a tenth of a pixel.
pub open spec fn image_ok(im: &ImageData) -> bool {
    &&& im.data@.len() == 4 * count(im)
    &&& count(im) <= 4000000000
    &&& count(im) * im.width <= 100000000000000
    &&& count(im) * im.height <= 100000000000000
}
pub open spec fn pixel(d: Seq<u8>, i: int) -> Rgba { Rgba { r: d[4 * i], g: d[4 * i + 1], b: d[4 * i + 2], a: d[4 * i + 3] } }
/// p is where pixel i is placed: (L / 100, a / 255, b / 255, x / width, y / height).
#[verifier::opaque]
pub open spec fn placed(im: &ImageData, i: int, p: Point5) -> bool {
    &&& pfin(p)
    &&& exists|c: XYZ, q: Lab| #![trigger xyz_to_lab(c, q)] rgba_to_xyz(pixel(im.data@, i), c) && xyz_to_lab(c, q)
            && near(val(p.0), val(q.l) / 100real, 0.0000000001real) && near(val(p.1), val(q.a) / 255real, 0.0000000001real) && near(val(p.2), val(q.b) / 255real, 0.0000000001real)
    &&& quot(val(p.3), ireal(i % im.width as int), ireal(im.width as int)) && 0real <= val(p.3) <= 1real
    &&& quot(val(p.4), ireal(i / im.width as int), ireal(im.height as int)) && 0real <= val(p.4) <= 1real
}
pub open spec fn all_placed(im: &ImageData, d: Seq<Point5>) -> bool { forall|i: int| #![trigger d[i]] 0 <= i < d.len() ==> placed(im, i, d[i]) }
/// The sum of f over the members.
pub open spec fn rsum(f: spec_fn(int) -> real, s: Seq<usize>) -> real
    decreases s.len()
{
    if s.len() == 0 { 0real } else { rsum(f, s.drop_last()) + f(s.last() as int) }
}
pub open spec fn rmean(f: spec_fn(int) -> real, s: Seq<usize>) -> real { rsum(f, s) / ireal(s.len() as int) }
pub open spec fn comp(d: Seq<Point5>, j: int) -> spec_fn(int) -> real { |i: int| val(c5(d[i])[j]) }
pub open spec fn column(im: &ImageData) -> spec_fn(int) -> real { |i: int| ireal(i % im.width as int) }
pub open spec fn row(im: &ImageData) -> spec_fn(int) -> real { |i: int| ireal(i / im.width as int) }
/// The colour is that of the mean of the members in Lab.
pub open spec fn coloured(d: Seq<Point5>, g: Seq<usize>, s: Swatch) -> bool {
    exists|q: Lab, c: XYZ, r: Rgba| #![trigger lab_to_xyz(q, c), xyz_to_rgba(c, r)] lab_ok(q) && lab_to_xyz(q, c) && xyz_to_rgba(c, r) && s.color == (r.r, r.g, r.b)
        && near(val(q.l), rclamp(100real * rmean(comp(d, 0), g), 0real, 100real), 0.002real)
        && near(val(q.a), rclamp(255real * rmean(comp(d, 1), g), -128real, 127real), 0.002real)
        && near(val(q.b), rclamp(255real * rmean(comp(d, 2), g), -128real, 127real), 0.002real)
}
/// x is the integer part of t, up to e.
pub open spec fn truncated(x: u32, t: real, e: real) -> bool { ireal(x as int) <= t + e && t - e < ireal(x as int) + 1real }
/// The error of a mean position.
pub open spec fn pos_err(im: &ImageData, size: int) -> real { 0.000000000000001real * (ireal(count(im)) * ireal(size)) + 0.000002real }
pub open spec fn located(im: &ImageData, g: Seq<usize>, s: Swatch) -> bool {
    &&& s.position.0 < im.width && truncated(s.position.0, rmean(column(im), g), pos_err(im, im.width as int))
    &&& s.position.1 < im.height && truncated(s.position.1, rmean(row(im), g), pos_err(im, im.height as int))
}
pub open spec fn weighted(im: &ImageData, g: Seq<usize>, s: Swatch) -> bool {
    fin(s.percentage) && 0real < val(s.percentage) <= 1real && quot(val(s.percentage), ireal(g.len() as int), ireal(count(im)))
}
pub open spec fn describes(im: &ImageData, d: Seq<Point5>, g: Seq<usize>, s: Swatch) -> bool {
    coloured(d, g, s) && located(im, g, s) && weighted(im, g, s)
}
/// One swatch for each cluster of the placed pixels, in the order the sort makes of the order of the clusters.
pub open spec fn extracted(im: &ImageData, d: Seq<Point5>, s: Seq<Swatch>) -> bool {
    let p = Params { min_points: 25, epsilon: flit(0.025real), metric: DistanceMetric::Euclidean };
    let g = clusters(d, p);
    &&& d.len() == count(im) && all_placed(im, d)
    &&& partition(g, count(im))
    &&& s.len() == g.len()
    &&& exists|u: Seq<Swatch>| #![trigger u.to_multiset()] u.len() == g.len() && u.to_multiset() == s.to_multiset() && s == stably_sorted(u) && (forall|k: int| #![trigger u[k]] 0 <= k < g.len() ==> describes(im, d, g[k], u[k]))
}
// u_dbscan: theorem_grouping (every cluster has a member, every member is below the number of points)
pub broadcast axiom fn axiom_no_clusters(d: Seq<Point5>, p: Params)
    requires d.len() == 0,
    ensures (#[trigger] clusters(d, p)).len() == 0;
pub proof fn lemma_no_pixels(im: &ImageData)
    requires count(im) == 0,
    ensures extracted(im, Seq::empty(), Seq::empty()),
{
    reveal(placed);
    let p = Params { min_points: 25, epsilon: flit(0.025real), metric: DistanceMetric::Euclidean };
    let d = Seq::<Point5>::empty();
    let u = Seq::<Swatch>::empty();
    axiom_no_clusters(d, p);
    assert(u.to_multiset() == u.to_multiset() && u.len() == clusters(d, p).len());
}
// ---- rounded quotients and products
pub broadcast proof fn lemma_quot_range(r: real, a: real, b: real)
    requires #[trigger] quot(r, a, b),
    ensures near(b, 100real, 0.00000000001real) && -300real <= a <= 300real ==> near(r, a / 100real, 0.0000000001real),
        near(b, 255real, 0.00000000001real) && -300real <= a <= 300real ==> near(r, a / 255real, 0.0000000001real),
{
    reveal(quot);
    if near(b, 100real, 0.00000000001real) && -300real <= a <= 300real { lemma_quot_const(r, a, b, 100real); }
    if near(b, 255real, 0.00000000001real) && -300real <= a <= 300real { lemma_quot_const(r, a, b, 255real); }
}
proof fn lemma_quot_const(r: real, a: real, b: real, c: real)
    requires quot(r, a, b), near(b, c, 0.00000000001real), -300real <= a <= 300real, c == 100real || c == 255real,
    ensures near(r, a / c, 0.0000000001real),
{
    reveal(quot);
    let p = r * b;
    let d = b - c;
    assert(-301real <= p <= 301real);
    assert(-4real <= r <= 4real) by (nonlinear_arith) requires p == r * b, b >= 99real, -301real <= p <= 301real;
    assert(r * b == r * c + r * d) by (nonlinear_arith) requires d == b - c;
    assert(near(r * d, 0real, 0.00000000004real)) by (nonlinear_arith) requires -4real <= r <= 4real, near(d, 0real, 0.00000000001real);
    if c == 100real { assert(r * c == 100real * r) by (nonlinear_arith) requires c == 100real; }
    else { assert(r * c == 255real * r) by (nonlinear_arith) requires c == 255real; }
}
pub broadcast proof fn lemma_prod_range(r: real, a: real, b: real)
    requires #[trigger] prod(r, a, b),
    ensures near(b, 100real, 0.00000000001real) && -2real <= a <= 2real ==> near(r, 100real * a, 0.0000000001real),
        near(b, 255real, 0.00000000001real) && -2real <= a <= 2real ==> near(r, 255real * a, 0.0000000001real),
{
    if near(b, 100real, 0.00000000001real) && -2real <= a <= 2real { lemma_prod_const(r, a, b, 100real); }
    if near(b, 255real, 0.00000000001real) && -2real <= a <= 2real { lemma_prod_const(r, a, b, 255real); }
}
proof fn lemma_prod_const(r: real, a: real, b: real, c: real)
    requires prod(r, a, b), near(b, c, 0.00000000001real), -2real <= a <= 2real, c == 100real || c == 255real,
    ensures near(r, c * a, 0.0000000001real),
{
    reveal(prod);
    let d = b - c;
    assert(a * b == a * c + a * d) by (nonlinear_arith) requires d == b - c;
    assert(near(a * d, 0real, 0.00000000002real)) by (nonlinear_arith) requires -2real <= a <= 2real, near(d, 0real, 0.00000000001real);
    if c == 100real { assert(a * c == 100real * a) by (nonlinear_arith) requires c == 100real; assert(c * a == 100real * a) by (nonlinear_arith) requires c == 100real; }
    else { assert(a * c == 255real * a) by (nonlinear_arith) requires c == 255real; assert(c * a == 255real * a) by (nonlinear_arith) requires c == 255real; }
}

// ---- sums and means
pub open spec fn bounded(d: Seq<Point5>, j: int) -> bool { forall|i: int| #![trigger d[i]] 0 <= i < d.len() ==> fin(c5(d[i])[j]) && -1.5real <= val(c5(d[i])[j]) <= 1.5real }
pub open spec fn within(s: Seq<usize>, n: int) -> bool { forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> s[i] < n }
proof fn lemma_csum(d: Seq<Point5>, s: Seq<usize>, j: int, m: real)
    requires within(s, d.len() as int), bounded(d, j), s.len() <= 4000000000, m == ireal(s.len() as int),
    ensures fin(csum(d, s, j)), near(val(csum(d, s, j)), rsum(comp(d, j), s), 4real * unit() * (m * m)), -1.5real * m <= rsum(comp(d, j), s) <= 1.5real * m, 0real <= m <= 4000000000real,
    decreases s.len(),
{
    reveal(ireal);
    if s.len() == 0 {
        broadcast use ax_zero;
        assert(m == 0real);
        assert(m * m == 0real) by (nonlinear_arith) requires m == 0real;
    } else {
        let (t, i) = (s.drop_last(), s.last() as int);
        let k = m - 1real;
        assert(s[s.len() - 1] < d.len());
        assert forall|x: int| #![trigger t[x]] 0 <= x < t.len() implies t[x] < d.len() as int by { assert(s[x] < d.len()); }
        lemma_csum(d, t, j, k);
        let (a, v) = (csum(d, t, j), c5(d[i])[j]);
        let r = rsum(comp(d, j), t);
        assert(fin(v) && -1.5real <= val(v) <= 1.5real) by { assert(i < d.len()); let _ = d[i]; }
        assert(comp(d, j)(i) == val(v));
        let kk = k * k;
        assert(kk <= 4000000000real * k) by (nonlinear_arith) requires kk == k * k, 0real <= k <= 4000000000real;
        assert(m * m == kk + 2real * k + 1real) by (nonlinear_arith) requires kk == k * k, k == m - 1real;
        ax_sum(a, v);
        assert(csum(d, s, j) == fadd(a, v));
    }
}
/// The mean of a component, and how far the machine is from it.
proof fn lemma_mean(d: Seq<Point5>, s: Seq<usize>, j: int, m: real)
    requires within(s, d.len() as int), bounded(d, j), 0 < s.len() <= 4000000000, m == ireal(s.len() as int),
    ensures fin(cmean(d, s, j)), near(val(cmean(d, s, j)), rmean(comp(d, j), s), 7real * unit() * m), -1.5real <= rmean(comp(d, j), s) <= 1.5real, 1real <= m <= 4000000000real,
        rmean(comp(d, j), s) * m == rsum(comp(d, j), s),
{
    lemma_csum(d, s, j, m);
    assert(m >= 1real) by { reveal(ireal); }
    let (a, r) = (val(csum(d, s, j)), rsum(comp(d, j), s));
    let mean = rmean(comp(d, j), s);
    let n = s.len() as int;
    ax_int(n);
    let mm = m * m;
    assert(mm <= 4000000000real * m) by (nonlinear_arith) requires mm == m * m, 0real <= m <= 4000000000real;
    assert(mm >= m) by (nonlinear_arith) requires mm == m * m, m >= 1real;
    ax_quotient(csum(d, s, j), fint(n));
    reveal(quot);
    let c = val(cmean(d, s, j));
    assert(near(c * m, a, unit() * absr(a) + 0.0000000000000000000001real));
    assert(mean * m == r) by (nonlinear_arith) requires mean == r / m, m >= 1real;
    assert(-1.5real <= mean <= 1.5real) by (nonlinear_arith) requires mean * m == r, -1.5real * m <= r <= 1.5real * m, m >= 1real;
    let e = 7real * unit() * m;
    assert(near(c * m, r, 7real * unit() * mm));
    assert(e * m == 7real * unit() * mm) by (nonlinear_arith) requires e == 7real * unit() * m, mm == m * m;
    lemma_cancel(c, mean, e, m);
}
proof fn lemma_cancel(a: real, b: real, e: real, m: real)
    requires near(a * m, b * m, e * m), m > 0real,
    ensures near(a, b, e),
{
    if a - b > e { assert(a * m - b * m > e * m) by (nonlinear_arith) requires a - b > e, m > 0real; }
    if b - a > e { assert(b * m - a * m > e * m) by (nonlinear_arith) requires b - a > e, m > 0real; }
}
/// f(i) * w is nearly g(i), and so are the means.
proof fn lemma_scaled(f: spec_fn(int) -> real, g: spec_fn(int) -> real, w: real, s: Seq<usize>, n: int, m: real)
    requires within(s, n), m == ireal(s.len() as int), forall|i: int| #![trigger f(i)] #![trigger g(i)] 0 <= i < n ==> near(f(i) * w, g(i), 0.0000006real) && 0real <= g(i) <= w - 1real,
    ensures near(rsum(f, s) * w, rsum(g, s), 0.0000006real * m), 0real <= rsum(g, s) <= (w - 1real) * m,
    decreases s.len(),
{
    reveal(ireal);
    if s.len() == 0 {
        assert(0real * w == 0real) by (nonlinear_arith);
        assert((w - 1real) * m == 0real) by (nonlinear_arith) requires m == 0real;
    } else {
        let (t, i) = (s.drop_last(), s.last() as int);
        let k = m - 1real;
        assert(s[s.len() - 1] < n);
        assert forall|x: int| #![trigger t[x]] 0 <= x < t.len() implies t[x] < n by { assert(s[x] < n); }
        lemma_scaled(f, g, w, t, n, k);
        let (a, b) = (rsum(f, t), f(i));
        assert((a + b) * w == a * w + b * w) by (nonlinear_arith);
        assert((w - 1real) * m == (w - 1real) * k + (w - 1real)) by (nonlinear_arith) requires k == m - 1real;
        assert(near(f(i) * w, g(i), 0.0000006real));
    }
}
/// A mean coordinate, scaled back.
proof fn lemma_position(d: Seq<Point5>, s: Seq<usize>, j: int, g: spec_fn(int) -> real, w: real, n: real, v: real)
    requires within(s, d.len() as int), bounded(d, j), 0 < s.len() <= 4000000000, s.len() <= d.len(), n == ireal(d.len() as int), 1real <= w <= 4294967295real, n * w <= 100000000000000real,
        forall|i: int| #![trigger comp(d, j)(i)] #![trigger g(i)] 0 <= i < d.len() ==> near(comp(d, j)(i) * w, g(i), 0.0000006real) && 0real <= g(i) <= w - 1real,
        prod(v, val(cmean(d, s, j)), w),
    ensures near(v, rmean(g, s), 0.000000000000001real * (n * w) + 0.000002real), 0real <= rmean(g, s) <= w - 1real,
{
    let m = ireal(s.len() as int);
    let f = comp(d, j);
    lemma_mean(d, s, j, m);
    lemma_scaled(f, g, w, s, d.len() as int, m);
    assert(m <= n) by { reveal(ireal); }
    let (c, mean, t) = (val(cmean(d, s, j)), rmean(f, s), rmean(g, s));
    let gs = rsum(g, s);
    assert(t * m == gs) by (nonlinear_arith) requires t == gs / m, m >= 1real;
    assert(0real <= t <= w - 1real) by (nonlinear_arith) requires t * m == gs, 0real <= gs <= (w - 1real) * m, m >= 1real;
    // mean * w against t
    let mw = mean * w;
    assert(mw * m == rsum(f, s) * w) by (nonlinear_arith) requires mw == mean * w, mean * m == rsum(f, s);
    lemma_cancel(mw, t, 0.0000006real, m);
    // c * w against mean * w
    let e = 7real * unit() * m;
    let cw = c * w;
    assert(near(cw, mw, e * w)) by (nonlinear_arith) requires near(c, mean, e), cw == c * w, mw == mean * w, w >= 1real;
    let nw = n * w;
    let mw2 = m * w;
    assert(mw2 <= nw) by (nonlinear_arith) requires mw2 == m * w, nw == n * w, m <= n, w >= 1real;
    assert(e * w == 7real * unit() * mw2) by (nonlinear_arith) requires e == 7real * unit() * m, mw2 == m * w;
    assert(near(cw, t, 0.00000000000000084real * nw + 0.0000006real));
    reveal(prod);
    assert(near(v, cw, unit() * absr(cw) + 0.0000000000000000000001real));
    assert(absr(cw) <= w + 1real);
}
/// The clusters have no more members than there are points.
proof fn lemma_len(s: Seq<usize>, n: int)
    requires within(s, n), s.no_duplicates(), n >= 0,
    ensures s.len() <= n,
{
    let t = s.map_values(|x: usize| x as int);
    assert(t.no_duplicates());
    t.unique_seq_to_set();
    let r = Set::<int>::range(0, n);
    assert(t.to_set().subset_of(r)) by {
        assert forall|x: int| t.to_set().contains(x) implies r.contains(x) by { let i = choose|i: int| 0 <= i < t.len() && t[i] == x; assert(s[i] < n); }
    }
    vstd::set_lib::lemma_len_subset(t.to_set(), r);
}
// ---- one pixel, one cluster
proof fn lemma_deltas()
    ensures fin(fsub(flit(100real), flit(0real))), near(val(fsub(flit(100real), flit(0real))), 100real, 0.000000000002real),
        fin(fsub(flit(127real), flit(-128real))), near(val(fsub(flit(127real), flit(-128real))), 255real, 0.000000000002real),
        fin(flit(0.025real)), val(flit(0.025real)) >= 0real,
{
    broadcast use linear;
}
proof fn lemma_index(im: &ImageData, k: int)
    requires image_ok(im), 0 <= k < count(im),
    ensures im.width >= 1, im.height >= 1, 0 <= k % (im.width as int) < im.width, 0 <= k / (im.width as int) < im.height, 4 * k + 3 < im.data@.len(),
        (k / (im.width as int)) % (im.height as int) == k / (im.width as int),
{
    let (w, h) = (im.width as int, im.height as int);
    assert(w >= 1 && h >= 1) by (nonlinear_arith) requires w >= 0, h >= 0, w * h > 0;
    assert(0 <= k % w < w && k == w * (k / w) + k % w) by (nonlinear_arith) requires w >= 1;
    let r = k / w;
    assert(0 <= r < h) by (nonlinear_arith) requires 0 <= k < w * h, w >= 1, k == w * r + k % w, 0 <= k % w < w;
    vstd::arithmetic::div_mod::lemma_small_mod(r as nat, h as nat);
}
proof fn lemma_pixel(im: &ImageData, k: int, c: XYZ, q: Lab, dl: F, da: F, db: F, p: Point5)
    requires image_ok(im), 0 <= k < count(im), rgba_to_xyz(pixel(im.data@, k), c), xyz_to_lab(c, q),
        fin(dl), near(val(dl), 100real, 0.000000000002real), fin(da), near(val(da), 255real, 0.000000000002real), fin(db), near(val(db), 255real, 0.000000000002real),
        p.0 == fdiv(q.l, dl), p.1 == fdiv(q.a, da), p.2 == fdiv(q.b, db),
        p.3 == fdiv(fint(k % (im.width as int)), fint(im.width as int)), p.4 == fdiv(fint(k / (im.width as int)), fint(im.height as int)),
    ensures placed(im, k, p),
{
    reveal(placed);
    reveal(ireal);
    lemma_index(im, k);
    lemma_rclamp(val(q.l), 0real, 100real);
    lemma_rclamp(val(q.a), -128real, 127real);
    lemma_rclamp(val(q.b), -128real, 127real);
    broadcast use {ax_quotient, lemma_quot_range, ax_int};
    let (w, h) = (im.width as int, im.height as int);
    assert(fin(fint(w)) && fin(fint(h)) && fin(fint(k % w)) && fin(fint(k / w)));
    assert(quot(val(p.0), val(q.l), val(dl)));
    assert(quot(val(p.1), val(q.a), val(da)));
    assert(quot(val(p.2), val(q.b), val(db)));
}
proof fn lemma_empty(im: &ImageData)
    requires image_ok(im), im.data@.len() == 0,
    ensures count(im) == 0,
{}
/// What the centroid of a cluster says.
pub open spec fn centred(im: &ImageData, d: Seq<Point5>, g: Seq<usize>, c: Point5) -> bool {
    &&& pfin(c)
    &&& near(val(c.0), rmean(comp(d, 0), g), 0.000004real) && -1.5real <= rmean(comp(d, 0), g) <= 1.5real
    &&& near(val(c.1), rmean(comp(d, 1), g), 0.000004real) && -1.5real <= rmean(comp(d, 1), g) <= 1.5real
    &&& near(val(c.2), rmean(comp(d, 2), g), 0.000004real) && -1.5real <= rmean(comp(d, 2), g) <= 1.5real
    &&& -2real <= val(c.3) <= 2real && -2real <= val(c.4) <= 2real
    &&& forall|v: real| #![trigger prod(v, val(c.3), ireal(im.width as int))] prod(v, val(c.3), ireal(im.width as int)) ==> near(v, rmean(column(im), g), pos_err(im, im.width as int))
    &&& forall|v: real| #![trigger prod(v, val(c.4), ireal(im.height as int))] prod(v, val(c.4), ireal(im.height as int)) ==> near(v, rmean(row(im), g), pos_err(im, im.height as int))
    &&& 0real <= rmean(column(im), g) <= ireal(im.width as int) - 1real
    &&& 0real <= rmean(row(im), g) <= ireal(im.height as int) - 1real
    &&& 0real <= pos_err(im, im.width as int) <= 0.11real && 0real <= pos_err(im, im.height as int) <= 0.11real
    &&& 1 <= g.len() <= count(im)
}
proof fn lemma_bounded(im: &ImageData, d: Seq<Point5>)
    requires image_ok(im), all_placed(im, d), d.len() == count(im),
    ensures bounded(d, 0), bounded(d, 1), bounded(d, 2), bounded(d, 3), bounded(d, 4),
{
    assert forall|i: int, j: int| #![trigger c5(d[i])[j]] 0 <= i < d.len() && 0 <= j < 5 implies fin(c5(d[i])[j]) && -1.5real <= val(c5(d[i])[j]) <= 1.5real by {
        let p = d[i];
        reveal(placed);
        assert(placed(im, i, p));
        let (c, q) = choose|c: XYZ, q: Lab| #![trigger xyz_to_lab(c, q)] rgba_to_xyz(pixel(im.data@, i), c) && xyz_to_lab(c, q)
            && near(val(p.0), val(q.l) / 100real, 0.0000000001real) && near(val(p.1), val(q.a) / 255real, 0.0000000001real) && near(val(p.2), val(q.b) / 255real, 0.0000000001real);
        lemma_rclamp(val(q.l), 0real, 100real);
        lemma_rclamp(val(q.a), -128real, 127real);
        lemma_rclamp(val(q.b), -128real, 127real);
        assert(c5(p)[0] == p.0 && c5(p)[1] == p.1 && c5(p)[2] == p.2 && c5(p)[3] == p.3 && c5(p)[4] == p.4);
    }
}
/// The placed coordinates are the pixel's, scaled.
proof fn lemma_coordinate(r: real, x: int, w: int)
    requires quot(r, ireal(x), ireal(w)), 0 <= x < w <= 4294967295,
    ensures near(r * ireal(w), ireal(x), 0.0000006real), 0real <= ireal(x) <= ireal(w) - 1real, 1real <= ireal(w) <= 4294967295real,
{
    reveal(quot);
    reveal(ireal);
}
/// The column (or row) of every pixel is what its point says, scaled.
proof fn lemma_columns(im: &ImageData, d: Seq<Point5>)
    requires image_ok(im), all_placed(im, d), d.len() == count(im),
    ensures forall|i: int| #![trigger comp(d, 3)(i)] #![trigger column(im)(i)] 0 <= i < d.len() ==> near(comp(d, 3)(i) * ireal(im.width as int), column(im)(i), 0.0000006real) && 0real <= column(im)(i) <= ireal(im.width as int) - 1real,
{
    assert forall|i: int| #![trigger comp(d, 3)(i)] #![trigger column(im)(i)] 0 <= i < d.len() implies near(comp(d, 3)(i) * ireal(im.width as int), column(im)(i), 0.0000006real) && 0real <= column(im)(i) <= ireal(im.width as int) - 1real by {
        reveal(placed);
        assert(placed(im, i, d[i]));
        lemma_index(im, i);
        lemma_coordinate(val(d[i].3), i % im.width as int, im.width as int);
        assert(comp(d, 3)(i) == val(d[i].3));
    }
}
proof fn lemma_rows(im: &ImageData, d: Seq<Point5>)
    requires image_ok(im), all_placed(im, d), d.len() == count(im),
    ensures forall|i: int| #![trigger comp(d, 4)(i)] #![trigger row(im)(i)] 0 <= i < d.len() ==> near(comp(d, 4)(i) * ireal(im.height as int), row(im)(i), 0.0000006real) && 0real <= row(im)(i) <= ireal(im.height as int) - 1real,
{
    assert forall|i: int| #![trigger comp(d, 4)(i)] #![trigger row(im)(i)] 0 <= i < d.len() implies near(comp(d, 4)(i) * ireal(im.height as int), row(im)(i), 0.0000006real) && 0real <= row(im)(i) <= ireal(im.height as int) - 1real by {
        reveal(placed);
        assert(placed(im, i, d[i]));
        lemma_index(im, i);
        lemma_coordinate(val(d[i].4), i / im.width as int, im.height as int);
        assert(comp(d, 4)(i) == val(d[i].4));
    }
}
/// The sizes as real numbers.
proof fn lemma_sizes(im: &ImageData)
    requires image_ok(im), count(im) > 0,
    ensures ({
        let (n, w, h) = (ireal(count(im)), ireal(im.width as int), ireal(im.height as int));
        n * w <= 100000000000000real && n * h <= 100000000000000real && n * w >= 0real && n * h >= 0real && 1real <= w <= 4294967295real && 1real <= h <= 4294967295real && n >= 1real
    }),
{
    let (w, h, n) = (im.width as int, im.height as int, count(im));
    lemma_index(im, 0);
    lemma_times(n, w);
    lemma_times(n, h);
    assert(0real <= ireal(n * w) <= 100000000000000real && 0real <= ireal(n * h) <= 100000000000000real && 1real <= ireal(n)) by {
        reveal(ireal);
        assert(n * w >= 0 && n * h >= 0) by (nonlinear_arith) requires n >= 0, w >= 0, h >= 0;
    }
    assert(1real <= ireal(w) <= 4294967295real && 1real <= ireal(h) <= 4294967295real) by { reveal(ireal); }
}
proof fn lemma_prod_exact(a: real, b: real)
    ensures prod(a * b, a, b),
{
    reveal(prod);
}
proof fn lemma_centred(im: &ImageData, d: Seq<Point5>, g: Seq<usize>, c: Point5)
    requires image_ok(im), all_placed(im, d), d.len() == count(im), g.len() > 0, g.no_duplicates(), within(g, count(im)),
        forall|j: int| #![trigger c5(c)[j]] 0 <= j < 5 ==> c5(c)[j] == cmean(d, g, j),
    ensures centred(im, d, g, c),
{
    let (w, h, n) = (im.width as int, im.height as int, count(im));
    let m = ireal(g.len() as int);
    lemma_bounded(im, d);
    lemma_len(g, n);
    assert(g[0] < n);
    assert(c5(c)[0] == c.0 && c5(c)[1] == c.1 && c5(c)[2] == c.2 && c5(c)[3] == c.3 && c5(c)[4] == c.4);
    lemma_mean(d, g, 0, m);
    lemma_mean(d, g, 1, m);
    lemma_mean(d, g, 2, m);
    lemma_mean(d, g, 3, m);
    lemma_mean(d, g, 4, m);
    lemma_sizes(im);
    let (rn, rw, rh) = (ireal(n), ireal(w), ireal(h));
    lemma_columns(im, d);
    lemma_rows(im, d);
    assert forall|v: real| #![trigger prod(v, val(c.3), rw)] prod(v, val(c.3), rw) implies near(v, rmean(column(im), g), pos_err(im, w)) by { lemma_position(d, g, 3, column(im), rw, rn, v); }
    assert forall|v: real| #![trigger prod(v, val(c.4), rh)] prod(v, val(c.4), rh) implies near(v, rmean(row(im), g), pos_err(im, h)) by { lemma_position(d, g, 4, row(im), rh, rn, v); }
    lemma_prod_exact(val(c.3), rw);
    lemma_position(d, g, 3, column(im), rw, rn, val(c.3) * rw);
    lemma_prod_exact(val(c.4), rh);
    lemma_position(d, g, 4, row(im), rh, rn, val(c.4) * rh);
}
proof fn lemma_times(a: int, b: int)
    requires a >= 0, b >= 0,
    ensures ireal(a * b) == ireal(a) * ireal(b), ireal(a) >= 0real, ireal(b) >= 0real,
{
    reveal(ireal);
    assert((a * b) as real == (a as real) * (b as real)) by (nonlinear_arith);
}
/// The integer part of a position lies inside.
proof fn lemma_inside(v: real, x: u32, t: real, e: real, w: int)
    requires near(v, t, e), 0real <= t <= ireal(w) - 1real, 0real <= e <= 0.11real, ireal(x as int) <= v || x == 0, v < ireal(x as int) + 1real, w >= 1,
    ensures truncated(x, t, e), x < w,
{
    reveal(ireal);
}
proof fn lemma_described(im: &ImageData, d: Seq<Point5>, g: Seq<usize>, c: Point5, dl: F, da: F, db: F, q: Lab, z: XYZ, r: Rgba, s: Swatch)
    requires image_ok(im), centred(im, d, g, c),
        fin(dl), near(val(dl), 100real, 0.000000000002real), fin(da), near(val(da), 255real, 0.000000000002real), fin(db), near(val(db), 255real, 0.000000000002real),
        lab_ok(q), near(val(q.l), rclamp(val(fmul(c.0, dl)), 0real, 100real), $LABBreal),
        near(val(q.a), rclamp(val(fmul(c.1, da)), -128real, 127real), $LABBreal), near(val(q.b), rclamp(val(fmul(c.2, db)), -128real, 127real), $LABBreal),
        lab_to_xyz(q, z), xyz_to_rgba(z, r), s.color == (r.r, r.g, r.b),
        cut(fmul(c.3, fint(im.width as int)), s.position.0), cut(fmul(c.4, fint(im.height as int)), s.position.1),
        s.percentage == fdiv(fint(g.len() as int), fint(count(im))),
    ensures describes(im, d, g, s),
{
    lemma_scaled_centroid(im, d, g, c, dl, da, db);
    lemma_rclamp_near(val(fmul(c.0, dl)), 100real * rmean(comp(d, 0), g), 0real, 100real);
    lemma_rclamp_near(val(fmul(c.1, da)), 255real * rmean(comp(d, 1), g), -128real, 127real);
    lemma_rclamp_near(val(fmul(c.2, db)), 255real * rmean(comp(d, 2), g), -128real, 127real);
    assert(coloured(d, g, s));
    let (w, h) = (im.width as int, im.height as int);
    assert(cut(fmul(c.3, fint(w)), s.position.0));
    assert(cut(fmul(c.4, fint(h)), s.position.1));
    lemma_inside(val(fmul(c.3, fint(w))), s.position.0, rmean(column(im), g), pos_err(im, w), w);
    lemma_inside(val(fmul(c.4, fint(h))), s.position.1, rmean(row(im), g), pos_err(im, h), h);
    broadcast use {ax_int, ax_quotient};
    reveal(ireal);
    assert(fin(fint(g.len() as int)) && fin(fint(count(im))));
}
pub open spec fn cut(v: F, x: u32) -> bool { (ireal(x as int) <= val(v) || x == 0) && val(v) < ireal(x as int) + 1real }
proof fn lemma_total(im: &ImageData, d: Seq<Point5>, g: Seq<Seq<usize>>, s: Seq<Swatch>)
    requires s.len() == g.len(), forall|k: int| #![trigger s[k]] 0 <= k < s.len() ==> describes(im, d, g[k], s[k]),
    ensures total(s),
{
    assert forall|i: int, j: int| #![trigger OrdSpec::cmp_spec(&s[i], &s[j])] 0 <= i < s.len() && 0 <= j < s.len() implies fin(s[i].percentage) && fin(s[j].percentage)
        && OrdSpec::cmp_spec(&s[i], &s[j]) == rord(val(s[i].percentage), val(s[j].percentage)) by {
        assert(describes(im, d, g[i], s[i]));
        assert(describes(im, d, g[j], s[j]));
    }
}
/// The scaled centroid is a fit argument for what follows.
proof fn lemma_scaled_centroid(im: &ImageData, d: Seq<Point5>, g: Seq<usize>, c: Point5, dl: F, da: F, db: F)
    requires image_ok(im), centred(im, d, g, c),
        fin(dl), near(val(dl), 100real, 0.000000000002real), fin(da), near(val(da), 255real, 0.000000000002real), fin(db), near(val(db), 255real, 0.000000000002real),
    ensures mid(fmul(c.0, dl)), near(val(fmul(c.0, dl)), 100real * rmean(comp(d, 0), g), 0.0011real),
        mid(fmul(c.1, da)), near(val(fmul(c.1, da)), 255real * rmean(comp(d, 1), g), 0.0011real),
        mid(fmul(c.2, db)), near(val(fmul(c.2, db)), 255real * rmean(comp(d, 2), g), 0.0011real),
        fin(fmul(c.3, fint(im.width as int))), near(val(fmul(c.3, fint(im.width as int))), rmean(column(im), g), pos_err(im, im.width as int)),
        -1real < val(fmul(c.3, fint(im.width as int))) < 4294967296real,
        fin(fmul(c.4, fint(im.height as int))), near(val(fmul(c.4, fint(im.height as int))), rmean(row(im), g), pos_err(im, im.height as int)),
        -1real < val(fmul(c.4, fint(im.height as int))) < 4294967296real,
        im.width >= 1, im.height >= 1,
{
    broadcast use {ax_product, lemma_prod_range, ax_int};
    let (w, h) = (im.width as int, im.height as int);
    lemma_index(im, 0);
    assert(0real <= ireal(w) <= 4294967295real && 0real <= ireal(h) <= 4294967295real) by { reveal(ireal); }
    assert(fin(fint(w)) && fin(fint(h)));
    assert(prod(val(fmul(c.0, dl)), val(c.0), val(dl)));
    assert(prod(val(fmul(c.1, da)), val(c.1), val(da)));
    assert(prod(val(fmul(c.2, db)), val(c.2), val(db)));
    assert(prod(val(fmul(c.3, fint(w))), val(c.3), ireal(w)));
    assert(prod(val(fmul(c.4, fint(h))), val(c.4), ireal(h)));
}
impl<'a> ImageData<'a> {
//@fn ImageData::width
    ensures r == N::of_int(self.width as int),
//@end
//@fn ImageData::height
    ensures r == N::of_int(self.height as int),
//@end
//@fn ImageData::extract
    requires image_ok(self),
    ensures exists|d: Seq<Point5>| #![trigger extracted(self, d, r@)] extracted(self, d, r@),
        ascending(r@), // @C02
//@attrs
#[verifier::loop_isolation(false)]
//@names width_u64 height_u64 width_f height_f delta_l delta_a delta_b index pixels rgba xyz l a b index_u64 x y params dbscan swatches cluster_id centroid lab rgb color position count percentage
//@nloops 2
//@loop 0
    invariant image_ok(self), index == 4 * pixels@.len(), index <= self.data@.len(),
        width_u64 == self.width, height_u64 == self.height, width_f == fint(self.width as int), height_f == fint(self.height as int),
        fin(delta_l), near(val(delta_l), 100real, 0.000000000002real), fin(delta_a), near(val(delta_a), 255real, 0.000000000002real), fin(delta_b), near(val(delta_b), 255real, 0.000000000002real),
        all_placed(self, pixels@),
    decreases self.data@.len() - index,
//@loop 1
    invariant it1_n <= it1_end, it1_end == it1_src@.len(), swatches@.len() == it1_n, it1_src@.len() == g.len(), g == groups(&dbscan),
        image_ok(self), pixels@.len() == count_,
        count_ == count(self), width_f == fint(self.width as int), height_f == fint(self.height as int),
        fin(delta_l), near(val(delta_l), 100real, 0.000000000002real), fin(delta_a), near(val(delta_a), 255real, 0.000000000002real), fin(delta_b), near(val(delta_b), 255real, 0.000000000002real),
        forall|k: int| #![trigger g[k]] 0 <= k < g.len() ==> centred(self, pixels@, g[k], it1_src@[k]),
        forall|k: int| #![trigger swatches@[k]] 0 <= k < it1_n ==> describes(self, pixels@, g[k], swatches@[k]),
    decreases it1_end - it1_n,
//@at start
    let ghost count_ = count(self);
    proof { lemma_deltas(); if count(self) == 0 { lemma_no_pixels(self); } }
//@at loop 0 start
    let ghost k = pixels@.len() as int;
    proof { lemma_index(self, k); }
//@at loop 0 end
    proof {
        assert(rgba == pixel(self.data@, k));
        lemma_pixel(self, k, xyz, Lab { l, a, b }, delta_l, delta_a, delta_b, pixels@[k]);
    }
//@at before loop 1
    let ghost g = groups(&dbscan);
    proof {
        assert forall|k: int| #![trigger g[k]] 0 <= k < g.len() implies centred(self, pixels@, g[k], it1_src@[k]) by { lemma_centred(self, pixels@, g[k], it1_src@[k]); }
    }
//@at after let centroid
    proof { assert(centred(self, pixels@, g[it1_i as int], centroid)); lemma_scaled_centroid(self, pixels@, g[it1_i as int], centroid, delta_l, delta_a, delta_b); }
//@at loop 1 end
    proof {
        let s = swatches@.last();
        lemma_described(self, pixels@, g[it1_i as int], centroid, delta_l, delta_a, delta_b, lab, xyz, rgb, s);
    }
//@at before call fit
    proof {
        assert forall|i: int| #![trigger pixels@[i]] 0 <= i < pixels@.len() implies pfin(pixels@[i]) by { reveal(placed); assert(placed(self, i, pixels@[i])); }
    }
//@at before call sort
    let ghost all = swatches@;
    proof { lemma_total(self, pixels@, groups(&dbscan), all); }
//@at after call sort
    proof {
        assert(all.to_multiset() == swatches@.to_multiset());
        assert(extracted(self, pixels@, swatches@));
    }
//@end
}

// ---- the properties, from the contract of extract
/// C02: inside the image, in (0, 1], ascending; no pixels, no swatches.
pub proof fn theorem_well_formed(im: &ImageData, d: Seq<Point5>, s: Seq<Swatch>)
    requires image_ok(im), extracted(im, d, s), ascending(s),
    ensures forall|k: int| #![trigger s[k]] 0 <= k < s.len() ==> s[k].position.0 < im.width && s[k].position.1 < im.height && fin(s[k].percentage) && 0real < val(s[k].percentage) <= 1real,
        forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() ==> val(s[i].percentage) <= val(s[j].percentage),
        count(im) == 0 ==> s.len() == 0,
{
    let p = Params { min_points: 25, epsilon: flit(0.025real), metric: DistanceMetric::Euclidean };
    let g = clusters(d, p);
    let u = choose|u: Seq<Swatch>| #![trigger u.to_multiset()] u.len() == g.len() && u.to_multiset() == s.to_multiset() && s == stably_sorted(u) && (forall|k: int| #![trigger u[k]] 0 <= k < g.len() ==> describes(im, d, g[k], u[k]));
    lemma_same_elements(s, u);
    assert forall|k: int| #![trigger s[k]] 0 <= k < s.len() implies s[k].position.0 < im.width && s[k].position.1 < im.height && fin(s[k].percentage) && 0real < val(s[k].percentage) <= 1real by {
        assert(u.contains(s[k]));
        let j = choose|j: int| 0 <= j < u.len() && u[j] == s[k];
        assert(describes(im, d, g[j], u[j]));
    }
    assert forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() implies val(s[i].percentage) <= val(s[j].percentage) by {
        assert(OrdSpec::cmp_spec(&s[i], &s[j]) != Ordering::Greater);
    }
    if count(im) == 0 && g.len() > 0 {
        assert(g[0].len() > 0);
        assert(g[0][0] < 0);
    }
}
/// The members of the first clusters, one after the other.
pub open spec fn flat(g: Seq<Seq<usize>>) -> Seq<usize>
    decreases g.len()
{
    if g.len() == 0 { Seq::empty() } else { flat(g.drop_last()) + g.last() }
}
proof fn lemma_flat(g: Seq<Seq<usize>>, n: int)
    requires partition(g, n),
    ensures flat(g).no_duplicates(), within(flat(g), n),
        forall|x: usize| #![trigger flat(g).contains(x)] flat(g).contains(x) ==> exists|k: int| #![trigger g[k]] 0 <= k < g.len() && g[k].contains(x),
    decreases g.len(),
{
    if g.len() > 0 {
        let (t, l) = (g.drop_last(), g.last());
        let z = g.len() - 1;
        assert(g[z] == l);
        assert forall|k: int| #![trigger t[k]] 0 <= k < t.len() implies t[k].len() > 0 && t[k].no_duplicates() by { assert(t[k] == g[k]); }
        assert forall|k: int, i: int| #![trigger t[k][i]] 0 <= k < t.len() && 0 <= i < t[k].len() implies t[k][i] < n by { assert(t[k] == g[k]); assert(g[k][i] < n); }
        assert forall|k: int, l: int, i: int, j: int| #![trigger t[k][i], t[l][j]] 0 <= k < t.len() && 0 <= l < t.len() && 0 <= i < t[k].len() && 0 <= j < t[l].len() && t[k][i] == t[l][j] implies k == l by {
            assert(t[k] == g[k] && t[l] == g[l]);
            assert(g[k][i] == g[l][j]);
        }
        lemma_flat(t, n);
        let f = flat(t);
        assert forall|i: int| #![trigger flat(g)[i]] 0 <= i < flat(g).len() implies flat(g)[i] < n by {
            if i < f.len() { assert(flat(g)[i] == f[i]); } else { assert(flat(g)[i] == g[z][i - f.len()]); }
        }
        assert forall|x: usize| f.contains(x) implies !l.contains(x) by {
            if l.contains(x) {
                let k = choose|k: int| #![trigger t[k]] 0 <= k < t.len() && t[k].contains(x);
                assert(t[k] == g[k]);
                let i = choose|i: int| 0 <= i < g[k].len() && g[k][i] == x;
                let j = choose|j: int| 0 <= j < l.len() && l[j] == x;
                assert(g[k][i] == g[z][j]);
            }
        }
        assert forall|a: int, b: int| 0 <= a < b < flat(g).len() implies flat(g)[a] != flat(g)[b] by {
            if b < f.len() { assert(flat(g)[a] == f[a] && flat(g)[b] == f[b]); }
            else if a < f.len() { assert(f.contains(f[a])); assert(flat(g)[b] == l[b - f.len()]); assert(l.contains(l[b - f.len()])); }
            else { assert(flat(g)[a] == l[a - f.len()] && flat(g)[b] == l[b - f.len()]); }
        }
        assert forall|x: usize| #![trigger flat(g).contains(x)] flat(g).contains(x) implies exists|k: int| #![trigger g[k]] 0 <= k < g.len() && g[k].contains(x) by {
            let i = choose|i: int| 0 <= i < flat(g).len() && flat(g)[i] == x;
            if i < f.len() {
                assert(f[i] == x);
                assert(f.contains(x));
                let k = choose|k: int| #![trigger t[k]] 0 <= k < t.len() && t[k].contains(x);
                assert(t[k] == g[k]);
            } else {
                assert(l[i - f.len()] == x);
                assert(g[z].contains(x));
            }
        }
    }
}
pub open spec fn percentages(s: Seq<Swatch>) -> real
    decreases s.len()
{
    if s.len() == 0 { 0real } else { percentages(s.drop_last()) + val(s.last().percentage) }
}
proof fn lemma_percentages(im: &ImageData, d: Seq<Point5>, g: Seq<Seq<usize>>, u: Seq<Swatch>)
    requires u.len() == g.len(), count(im) >= 1, forall|k: int| #![trigger u[k]] 0 <= k < g.len() ==> describes(im, d, g[k], u[k]),
    ensures near(percentages(u) * ireal(count(im)), ireal(flat(g).len() as int), 0.000000001real * ireal(flat(g).len() as int) + 0.0000000000000000000001real * ireal(g.len() as int)),
    decreases g.len(),
{
    let n = ireal(count(im));
    if g.len() == 0 {
        reveal(ireal);
        assert(0real * n == 0real) by (nonlinear_arith);
    } else {
        let (t, v) = (g.drop_last(), u.drop_last());
        assert forall|k: int| #![trigger v[k]] 0 <= k < t.len() implies describes(im, d, t[k], v[k]) by { assert(v[k] == u[k] && t[k] == g[k]); }
        lemma_percentages(im, d, t, v);
        let z = g.len() - 1;
        assert(describes(im, d, g[z], u[z]));
        let (p, q) = (percentages(v), val(u[z].percentage));
        assert((p + q) * n == p * n + q * n) by (nonlinear_arith);
        reveal(quot);
        let (a, b) = (flat(t).len() as int, g[z].len() as int);
        assert(ireal(a + b) == ireal(a) + ireal(b) && ireal(b) >= 0real && ireal(z + 1) == ireal(z) + 1real) by { reveal(ireal); }
        assert(near(q * n, ireal(b), unit() * ireal(b) + 0.0000000000000000000001real));
    }
}
/// C02: the percentages sum to at most 1, up to rounding. (The sorted swatches are a rearrangement of u.)
pub proof fn theorem_percentages(im: &ImageData, d: Seq<Point5>, g: Seq<Seq<usize>>, u: Seq<Swatch>)
    requires image_ok(im), partition(g, count(im)), u.len() == g.len(), forall|k: int| #![trigger u[k]] 0 <= k < g.len() ==> describes(im, d, g[k], u[k]),
    ensures percentages(u) <= 1.00000001real,
{
    lemma_flat(g, count(im));
    if g.len() > 0 {
        assert(g[0].len() > 0 && g[0][0] < count(im));
        lemma_len(flat(g), count(im));
        lemma_percentages(im, d, g, u);
        lemma_clusters(g);
        let (p, n) = (percentages(u), ireal(count(im)));
        assert(ireal(flat(g).len() as int) <= n && ireal(g.len() as int) <= n && n >= 1real) by { reveal(ireal); }
        assert(p * n <= 1.00000001real * n);
        assert(p <= 1.00000001real) by (nonlinear_arith) requires p * n <= 1.00000001real * n, n >= 1real;
    }
}
proof fn lemma_clusters(g: Seq<Seq<usize>>)
    requires forall|k: int| #![trigger g[k]] 0 <= k < g.len() ==> g[k].len() > 0,
    ensures flat(g).len() >= g.len(),
    decreases g.len(),
{
    if g.len() > 0 {
        let t = g.drop_last();
        assert(g[g.len() - 1].len() > 0);
        assert forall|k: int| #![trigger t[k]] 0 <= k < t.len() implies t[k].len() > 0 by { assert(t[k] == g[k]); }
        lemma_clusters(t);
    }
}
} // verus!
