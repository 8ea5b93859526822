//@ include prelude.vc
//@ include treetheory.vc
} // verus!
fn main() {}
