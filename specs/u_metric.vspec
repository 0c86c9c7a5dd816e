//@source math/distance
//@include common.inc
//@include float.inc
//@include point.inc
//@include metric.inc
fn main() {}
