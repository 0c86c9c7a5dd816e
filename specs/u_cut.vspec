//@source math/graph math/clustering/hierarchical
//@include common.inc
//@include float.inc
//@include heap.inc
//@include dendro.inc
//@include cut.inc
fn main() {}
