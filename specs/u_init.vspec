//@source math/distance math/clustering/kmeans
//@include common.inc
//@include float.inc
//@include point.inc
//@include arith.inc
//@include metric.inc
//@include init.inc
fn main() {}
