//@source math/distance math/neighbors math/clustering/hdbscan
//@include common.inc
//@include float.inc
//@include heap.inc
//@include element.inc
//@include point.inc
//@include metric.inc
//@include neighbor.inc
//@include kdtree.inc
//@include core.inc
fn main() {}
