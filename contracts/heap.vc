//@ include prelude.vc
//@ include ridfns.vc
//@ include pathfns.vc
//@ include namesfns.vc
//@ include loggerfns.vc
//@ include treedefs.vc
//@ include seqlemmas.vc
//@ include treetheory.vc
//@ include treeinv.vc
//@ include treefns.vc
//@ include nodefns.vc
pub mod m1 { use super::*;
//@ include topdown.vc
//@ include names_tree.vc
//@ include pointers.vc
pub mod m2 { use super::*;
//@ include lookup.vc
pub mod m3 { use super::*;
//@ include report.vc
//@ include posting.vc
pub mod m4 { use super::*;
//@ include grow.vc
pub mod m5 { use super::*;
//@ include attach.vc
pub mod m6 { use super::*;
//@ include cut.vc
pub mod m7 { use super::*;
//@ include process.vc
pub mod m8 { use super::*;
//@ include init.vc
pub mod m9 { use super::*;
//@ include scene.vc
pub mod m10 { use super::*;
broadcast use {vstd::group_vstd_default, ax_display::group_display, ax_toml::group_toml};
//@ include toml.vc
//@ include saving.vc
}}}}}}}}}}
} // verus!
fn main() {}
