//@ include prelude.vc
//@ include namesfns.vc
} // verus!
fn main() {}
