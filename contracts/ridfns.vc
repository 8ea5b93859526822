// The id registry: shared by the rid group and by the tree.
//@ type structs/rid.rs RID
//@ type structs/rid.rs RIDHolder

impl<T> RIDHolder<T> {
    pub open spec fn wf(&self) -> bool {
        &&& forall|r: RID| #[trigger] self.data@.contains_key(r) ==> r < self.highest
        &&& forall|i: int| 0 <= i < self.vacant@.len() ==> !self.data@.contains_key(#[trigger] self.vacant@[i])
        &&& forall|i: int| 0 <= i < self.vacant@.len() ==> (#[trigger] self.vacant@[i]) < self.highest
        &&& self.vacant@.no_duplicates()
    }

//@ fn structs/rid.rs RIDHolder::new
    ensures ret.wf(), ret.data@ == Map::<RID, T>::empty(), ret.vacant@.len() == 0, ret.highest == 0,
//@ end
//@ fn structs/rid.rs RIDHolder::from_vec
    ensures
        ret.wf(),
        forall|r: RID| #[trigger] ret.data@.contains_key(r) <==> r < slice@.len(),
        forall|i: int| 0 <= i < slice@.len() ==> #[trigger] ret.data@[i as RID] == slice@[i],
//@ loop 0 owned out=HashMap
    invariant AUTO
        g0 == slice@, highest == slice@.len(),
        forall|r: RID| #[trigger] o0@.contains_key(r) <==> r < k0,
        forall|i: int| 0 <= i < k0 ==> #[trigger] o0@[i as RID] == slice@[i],
//@ end
//@ fn structs/rid.rs RIDHolder::push
    requires old(self).wf(), old(self).highest < u64::MAX,
    ensures
        final(self).wf(),
        !old(self).data@.contains_key(ret),
        final(self).data@ == old(self).data@.insert(ret, item),
        final(self).highest <= old(self).highest + 1,
        old(self).vacant@.len() == 0 ==> ret == old(self).highest && final(self).vacant@.len() == 0,
//@ end
//@ fn structs/rid.rs RIDHolder::retrieve
    ensures
        ret.is_some() == self.data@.contains_key(rid),
        ret.is_some() ==> *ret.unwrap() == self.data@[rid],
//@ end
//@ fn structs/rid.rs RIDHolder::modify | mcall=get_mut=>&mut:map_get_mut
    requires old(self).wf(),
    ensures
        ret.is_some() == old(self).data@.contains_key(rid),
        ret.is_none() ==> *final(self) == *old(self),
        ret.is_some() ==> *ret.unwrap() == old(self).data@[rid] && final(self).data@ == old(self).data@.insert(rid, *final(ret.unwrap())) && final(self).vacant@ == old(self).vacant@ && final(self).highest == old(self).highest,
        final(self).wf(),
//@ end
//@ fn structs/rid.rs RIDHolder::take
    requires old(self).wf(),
    ensures
        final(self).wf(),
        final(self).data@ == old(self).data@.remove(rid),
        ret.is_some() == old(self).data@.contains_key(rid),
        ret.is_some() ==> ret.unwrap() == old(self).data@[rid],
//@ end
//@ fn structs/rid.rs RIDHolder::len
    ensures ret == self.data@.len(),
//@ end
//@ fn structs/rid.rs RIDHolder::is_empty
    ensures ret == (self.data@.len() == 0),
//@ end
}
