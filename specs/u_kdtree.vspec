//@source math/distance math/neighbors
//@include common.inc
//@include float.inc
//@include heap.inc
//@include element.inc
//@include point.inc
//@include metric.inc
//@include neighbor.inc
//@include kdtree.inc
fn main() {}
