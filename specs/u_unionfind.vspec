//@include common.inc
//@include unionfind.inc
fn main() {}
