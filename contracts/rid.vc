//@ include prelude.vc
//@ include ridfns.vc
use std::collections::hash_map::{Iter, Values};
use vstd::std_specs::iter::IteratorSpec;
// The iterators: what is still to come is the values (the pairs) of the map, each key once.
impl<T> RIDHolder<T> {
//@ fn structs/rid.rs RIDHolder::iter
    ensures
        ret.remaining().len() == self.data@.len(),
        ret.remaining().unref().to_set() == self.data@.values(),
//@ end
//@ fn structs/rid.rs RIDHolder::iter_enumerated
    ensures
        ret.remaining().len() == self.data@.len(),
        ret.remaining().no_duplicates(),
        forall|r: RID| #[trigger] self.data@.contains_key(r) ==> ret.remaining().contains((&r, &self.data@[r])),
        forall|i: int| 0 <= i < ret.remaining().len() ==> self.data@.contains_key(*(#[trigger] ret.remaining()[i]).0) && self.data@[*ret.remaining()[i].0] == *ret.remaining()[i].1,
//@ end
}
} // verus!
fn main() {}
