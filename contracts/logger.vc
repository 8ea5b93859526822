//@ include prelude.vc
//@ include ridfns.vc
//@ include pathfns.vc
//@ include loggerfns.vc
} // verus!
fn main() {}
