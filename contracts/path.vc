//@ include prelude.vc
//@ include pathfns.vc
} // verus!
fn main() {}
