//@include common.inc
//@include float.inc
//@include heap.inc
//@include edge.inc
//@include mst.inc
fn main() {}
