// solver-option smt.arith.solver=6
//@source color math/number.rs
//@define PRECISION single or double (2^-24 = 0.00000006)
//@define T2 0.00000021
//@define T4 0.00000041
//@define T7 0.000013
//@define T10 0.000104
//@define T14 0.0017
//@define T17 0.021
//@define LIT 0.0000001
//@define CUBELIT 0.0000006
//@define CUBEMIN 0.000000001
//@define CUBE 0.000005
//@define CBRT 0.0000004
//@define POWF 0.0000006
//@define LABB 0.0001
//@define LABL 0.0011
//@define LABA 0.009
//@define LABC 0.004
//@define FIN 0.0000005
//@define FOUT 0.000008
//@define XYZB 0.0000002
//@define INVIN 0.000002
//@define INVOUT 0.00003
//@define ENCIN 0.00001
//@define ENCOUT 0.0003
//@define DECOUT 0.00003
//@define BYTEC 0.0000000001
//@define BYTE 0.00000046
//@define CHAN 0.6
//@define XMAX 0.950457
//@define YMAX 1.000001
//@define ZMAX 1.088645
//@define SRGB 0.0001
//@define FROMLAB 0.0001
//@include common.inc
//@include real.inc
//@include colour.inc
//@include colour_single.inc
fn main() {}
