"""Which proof units decide which property, and what is left to the bounded stand-in."""
# property -> (units, what the units prove, what only the bounded stand-in covers)
# '+unit': discharges contracts the property builds on; a failure there starts the search for a failing input
PLAN = {
    'C01': (['u_image', '+u_dbscan', '+u_colour64'], 'ImageData::{width, height, extract}, Point5::{new, index}, Params::new over the contracts of DBSCAN (u_dbscan) and of the colour conversions (u_colour64): one swatch for each cluster of the placed pixels, colour, position and percentage all of that cluster, for images with count * max(width, height) <= 10^14', 'the exact rounding of the percentage'),
    'C02': (['u_image', '+u_dbscan', '+u_colour64'], 'ImageData::extract with Swatch::{cmp, partial_cmp}: no panic, theorem_well_formed (position inside, percentage in (0, 1], ascending, none without pixels), theorem_percentages (sum at most 1 + 10^-8)', 'images with count * max(width, height) > 10^14'),
    'C03': (['u_dbscan', '+u_image'], 'DBSCAN::{fit, expand_cluster, centroids, count_at}: the labelling, the sizes and the centroids by cluster id are a function of the data (lemma_unique), whatever the order hash maps iterate in; ImageData::extract: the swatches are the stable sort of one swatch per cluster in the order of the clusters', 'ImageData::extract repeated in one process and in fresh processes (that the floating-point operations give the same bits each time is not stated in a contract)'),
    'C04': (['u_dbscan'], 'Label, Params, DBSCAN::{fit, expand_cluster} over the contracts of KDTree, discharged in the same unit: well_grouped', ''),
    'C05': (['u_dbscan'], 'DBSCAN::{fit, centroids, count_at, outliers}: theorem_grouping (each point once, no gaps, means, outliers ascending)', 'the mean is the sum in index order divided by the count; its rounding error is bounded by the stand-in only'),
    'C06': (['u_kdtree'], 'DistanceMetric::{measure, measure_axis}, Element, Node, KDTree::{new, build_node, search_radius, search_radius_recursively}', ''),
    'C07': (['u_kdtree'], 'DistanceMetric::{measure, measure_axis}, Element, Node, KDTree::{new, build_node, search, search_recursively, search_nearest}', ''),
    'C08': (['u_linear'], 'DistanceMetric::measure, LinearSearch::{new, search, search_nearest, search_radius}', ''),
    'C09': (['u_core'], 'CoreDistance::{new, distance_at} over the contracts of KDTree, all of which are discharged in the same unit', ''),
    'C10': (['u_mst'], 'WeightedEdge, its order, MinimumSpanningTree::build: span, no cycle, minimality, weights', ''),
    'C11': (['u_unionfind'], 'UnionFind::{new, find, union}: the partition, weights, fresh identifiers', ''),
    'C12': (['u_link'], 'HierarchicalClustering::fit with union-find and spanning tree: the single-linkage dendrogram', ''),
    'C13': (['u_cut'], 'HierarchicalClustering::partition and the dendrogram walk: labels are exactly the groups of the first n-k merges', ''),
    'C14': (['u_kmeans'], 'Cluster, KmeansParams getters, Kmeans::{fit, reassign, centroids, count_at}, Initializer and KDTree::{new, search_nearest} in the same unit: history of the iteration, partition, means (theorem_partition, theorem_alone)', 'the mean is the sum in index order divided by the count; its rounding error is bounded by the stand-in only'),
    'C15': (['u_init'], 'Initializer::{initialize, random, kmeans_plus_plus}: distinct entries, farthest picks; the random draw loop is proved partially correct (its termination depends on the generator)', 'termination of the random draw for the generators of the rand crate'),
    'C16': (['kani c16'], 'Lab::new, XYZ::new (exact: kept or nearest bound), Lab::from(&XYZ), XYZ::from(&Lab), XYZ::from(&Rgba) in f32 and f64: every component in its documented range for every argument, bit-precisely', 'that cbrt, powf and powi meet their stubs'),
    'C17': (['u_colour64'], 'XYZ::from(&Rgba), Lab::from(&XYZ), XYZ::from(&Lab), Rgba::from(&XYZ), their transfer functions and constructors in double precision; theorem_xyz and theorem_lab: every opaque colour comes back exactly, both ways (the matrices invert, the Lab range is never left, encode and decode are inverse and separated by more than the rounding)', 'alpha does not influence XYZ (exactly); the accuracy of cbrt and powf (axioms)'),
    'C18': (['u_colour'], 'Rgba::from(&XYZ), its transfer function, clamp, Rgba::max_value: alpha 255, to_u8 never fails, each channel within 0.6 of 255 times the sRGB encoding of the linear value limited to 0..1, in real arithmetic with rounding errors (covers f32 and f64)', 'the exact choice of the nearest integer'),
    'C19': (['u_points', 'u_metric'], 'Point2, Point3, Point5 (new, dim, to_vec, zero, is_zero, index, add, sub, mul, div and their in-place forms, rejection of division by zero), DistanceMetric::{measure, measure_axis}, lemma_distance', 'the IEEE laws behind lemma_distance (axioms of float.inc and point.inc)'),
    'C20': (['u_orders'], 'cmp and partial_cmp (and == of search candidates) of graph edges, search candidates and swatches, and the order laws', ''),
    'C21': (['kani c21'], 'clamp (value or nearest bound; inverted range rejected) and from_u8, from_u32, from_u64, from_usize for u8..u128, f32, f64, channel accessors and maxima: every argument, bit-precisely', ''),
    'C22': (['u_colour'], 'XYZ::from(&Rgba), Lab::from(&XYZ), XYZ::from(&Lab), their transfer functions, constructors, white point: within 0.0001 / (0.0011, 0.009, 0.004) / 0.0001 of the definitions over the reals, for f32 and f64; theorem_inverse (0.0009), theorem_grey (0.099)', 'the accuracy of cbrt and powf (axioms)'),
}
# how much of the thorough tier to run when an obligation fails and the quick tier finds no input (seconds)
SEARCH_S = 240
