// solver-option smt.arith.solver=6
//@source color math/number.rs
//@include double.inc
//@include common.inc
//@include real.inc
//@include colour.inc
//@include colour_roundtrip.inc
fn main() {}
