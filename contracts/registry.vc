//@ include prelude.vc
//@ include strings.vc
//@ include registryfns.vc
} // verus!
fn main() {}
