//@source math/graph math/clustering/hierarchical
//@include common.inc
//@include float.inc
//@include heap.inc
//@include unionfind.inc
//@include edge.inc
//@include mst.inc
//@include dendro.inc
//@include link.inc
fn main() {}
