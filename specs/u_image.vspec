// solver-option smt.arith.solver=6
//@source color math/number.rs math/point.rs math/distance math/clustering/dbscan/params.rs swatch.rs image.rs
//@include double.inc
//@include common.inc
//@include real.inc
//@proved_in u_colour64
//@include colour.inc
//@proved_in
//@include image.inc
fn main() {}
