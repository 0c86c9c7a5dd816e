//@source math/distance math/neighbors math/clustering/dbscan
//@subst N KDTree
//@include common.inc
//@include float.inc
//@include heap.inc
//@include element.inc
//@include point.inc
//@include arith.inc
//@include metric.inc
//@include neighbor.inc
//@include kdtree.inc
//@include group.inc
//@include map.inc
//@include dbscan.inc
fn main() {}
