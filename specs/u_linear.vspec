//@source math/distance math/neighbors
//@include common.inc
//@include float.inc
//@include point.inc
//@include metric.inc
//@include neighbor.inc
//@include linear.inc
fn main() {}
