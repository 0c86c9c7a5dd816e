//@source math/distance math/neighbors math/clustering/kmeans
//@subst N KDTree
//@include common.inc
//@include float.inc
//@include heap.inc
//@include element.inc
//@include point.inc
//@include arith.inc
//@include metric.inc
//@include neighbor.inc
//@include kdtree.inc
//@include init.inc
//@include kmeans.inc
fn main() {}
