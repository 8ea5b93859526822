//@ mode tree
//@ hmethods get_node get_node_mut get_node_raw get_node_mut_raw
impl NodeIdentity {
//@ fn structs/node_tree_base.rs NodeIdentity::does_not_match | mode=plain strplus
    ensures ret == !(*self matches NodeIdentity::UniqueName(s) && s@ == name@),
//@ end
}
impl TreeStatus {
//@ fn structs/node_tree_base.rs TreeStatus::is_active | mode=plain
    ensures ret == (*self != TreeStatus::Terminated), // [C08]
//@ end
//@ fn structs/node_tree_base.rs TreeStatus::has_terminated | mode=plain
    ensures ret == (*self == TreeStatus::Terminated), // [C08]
//@ end
}
impl NodeTreeBase {
//@ const structs/node_tree_base.rs NodeTreeBase::ROOT_RID
//@ fn structs/node_tree_base.rs NodeTreeBase::root
    requires self.known(0),
    ensures ret == self.ptr(0),
//@ end
//@ fn structs/node_tree_base.rs NodeTreeBase::root_mut
    requires old(self).known(0), old(self).nodes.wf(),
    ensures ret == old(self).ptr(0), old(self).same(final(self)), old(self).side(final(self)), final(self).nodes.wf(),
//@ hint exit
    assert(self.nodes.data@ =~= old(self).nodes.data@);
//@ end
//@ fn structs/node_tree_base.rs NodeTreeBase::get_node_raw
    ensures ret == (if self.known(rid) { Some(self.ptr(rid)) } else { None }),
//@ end
//@ fn structs/node_tree_base.rs NodeTreeBase::get_node
    ensures ret == (if self.known(rid) { Some(self.ptr(rid)) } else { None }),
//@ end
//@ fn structs/node_tree_base.rs NodeTreeBase::get_node_mut_raw
    ensures ret == (if self.known(rid) { Some(self.ptr(rid)) } else { None }),
//@ end
//@ fn structs/node_tree_base.rs NodeTreeBase::get_node_mut
    requires old(self).nodes.wf(),
    ensures ret == (if old(self).known(rid) { Some(old(self).ptr(rid)) } else { None }), old(self).same(final(self)), old(self).side(final(self)), final(self).nodes.wf(), final(self).links() == old(self).links(), final(self).inv() == old(self).inv(),
//@ hint exit
    assert(self.nodes.data@ =~= old(self).nodes.data@);
    proof { lemma_same(old(self), self); }
//@ end
//@ fn structs/node_tree_base.rs NodeTreeBase::get_nodes
    ensures ret@.len() == rids@.len(), forall|i: int| 0 <= i < ret@.len() ==> #[trigger] ret@[i] == (if self.known(rids@[i]) { Some(self.ptr(rids@[i])) } else { None }),
//@ loop 0
    invariant AUTO
        s0@ == rids@, o0@.len() == k0,
        forall|i: int| 0 <= i < k0 ==> #[trigger] o0@[i] == (if self.known(rids@[i]) { Some(self.ptr(rids@[i])) } else { None }),
//@ end
//@ fn structs/node_tree_base.rs NodeTreeBase::get_all_valid_nodes
    ensures ret@ == rids@.filter(|r: RID| self.known(r)).map_values(|r: RID| self.ptr(r)),
//@ loop 0
    invariant AUTO
        s0@ == rids@,
        o0@ == rids@.take(k0 as int).filter(|r: RID| self.known(r)).map_values(|r: RID| self.ptr(r)),
//@ hint loopstart 0
    proof { lemma_filter_take(rids@, k0 as int, |r: RID| self.known(r)); }
//@ hint loopend 0
    proof { assert(o0@ =~= rids@.take(k0 as int).filter(|r: RID| self.known(r)).map_values(|r: RID| self.ptr(r))); }
//@ hint afterloop 0
    proof { assert(rids@.take(rids@.len() as int) =~= rids@); }
//@ end
//@ fn structs/node_tree_base.rs NodeTreeBase::get_nodes_mut | panics=!rids.view().no_duplicates()
    ensures
        rids@.no_duplicates(), // [C22]
       
        *old(self) == *final(self),
        ret@.len() == rids@.len(), forall|i: int| 0 <= i < ret@.len() ==> #[trigger] ret@[i] == (if old(self).known(rids@[i]) { Some(old(self).ptr(rids@[i])) } else { None }),
//@ loop 0 out=HashSet<u64> elem=val
    invariant AUTO
        s0@ == rids@, o0@ == rids@.take(k0 as int).to_set(), rids@.no_duplicates() ==> o0@.len() == k0,
//@ hint loopend 0
    proof { lemma_set_take(rids@, k0 as int - 1); }
//@ hint afterloop 0
    proof { assert(rids@.take(rids@.len() as int) =~= rids@); if o0@.len() == rids@.len() { rids@.lemma_no_dup_set_cardinality(); } }
//@ loop 1
    invariant AUTO
        s1@ == rids@, o1@.len() == k1, self == old(self),
        forall|i: int| 0 <= i < k1 ==> #[trigger] o1@[i] == (if self.known(rids@[i]) { Some(self.ptr(rids@[i])) } else { None }),
//@ end
//@ fn structs/node_tree_base.rs NodeTreeBase::get_all_valid_nodes_mut | panics=!rids.view().no_duplicates()
    ensures
        rids@.no_duplicates(), // [C22]
        *old(self) == *final(self), ret@ == rids@.filter(|r: RID| old(self).known(r)).map_values(|r: RID| old(self).ptr(r)),
//@ loop 0 out=HashSet<u64> elem=val
    invariant AUTO
        s0@ == rids@, o0@ == rids@.take(k0 as int).to_set(), rids@.no_duplicates() ==> o0@.len() == k0,
//@ hint loopend 0
    proof { lemma_set_take(rids@, k0 as int - 1); }
//@ hint afterloop 0
    proof { assert(rids@.take(rids@.len() as int) =~= rids@); if o0@.len() == rids@.len() { rids@.lemma_no_dup_set_cardinality(); } }
//@ loop 1
    invariant AUTO
        s1@ == rids@, self == old(self),
        o1@ == rids@.take(k1 as int).filter(|r: RID| self.known(r)).map_values(|r: RID| self.ptr(r)),
//@ hint loopstart 1
    proof { lemma_filter_take(rids@, k1 as int, |r: RID| self.known(r)); }
//@ hint loopend 1
    proof { assert(o1@ =~= rids@.take(k1 as int).filter(|r: RID| self.known(r)).map_values(|r: RID| self.ptr(r))); }
//@ hint afterloop 1
    proof { assert(rids@.take(rids@.len() as int) =~= rids@); }
//@ end
//@ fn structs/node_tree_base.rs NodeTreeBase::queue_termination
    ensures
        old(self).same(final(self)), old(self).events@ == final(self).events@, old(self).logger == final(self).logger, old(self).last_frame == final(self).last_frame,
        final(self).status == (match old(self).status { TreeStatus::Process(p) => TreeStatus::QueuedTermination(p), s => s }), // [C08]
//@ end
//@ fn structs/node_tree_base.rs NodeTreeBase::terminate
    ensures
        old(self).same(final(self)), old(self).events@ == final(self).events@, old(self).logger == final(self).logger, old(self).last_frame == final(self).last_frame, old(self).stats@ == final(self).stats@,
        final(self).status == TreeStatus::Terminated, // [C08,C18]
//@ end
//@ fn structs/node_tree_base.rs NodeTreeBase::register_node
    requires old(self).nodes.wf(), old(self).room(),
    ensures
        final(self).nodes.wf(), !old(self).known(ret),
        final(self).nodes.data@ == old(self).nodes.data@.insert(ret, node), final(self).nodes.highest <= old(self).nodes.highest + 1,
        final(self).identity@ == old(self).identity@.insert(ret, NodeIdentity::NodePath),
        final(self).mem@ == old(self).mem@, final(self).singletons@ == old(self).singletons@, old(self).side(final(self)),
//@ end
//@ fn structs/node_tree_base.rs NodeTreeBase::unregister_node | mcall=to_string=>&:to_text
    requires old(self).nodes.wf(), old(self).sing_ok(), old(self).known(rid) ==> old(self).mem@.contains_key(old(self).ptr(rid)),
    ensures
        final(self).nodes.wf(), final(self).sing_ok(),
        final(self).nodes.data@ == old(self).nodes.data@.remove(rid),
        final(self).identity@ == old(self).identity@.remove(rid),
        final(self).mem@ == (if old(self).known(rid) { old(self).mem@.remove(old(self).ptr(rid)) } else { old(self).mem@ }),
        forall|n: Seq<char>| #[trigger] final(self).singletons@.contains_key(n) <==> old(self).singletons@.contains_key(n) && old(self).singletons@[n] != rid, // [C06,C09]
        forall|n: Seq<char>| #[trigger] final(self).singletons@.contains_key(n) ==> final(self).singletons@[n] == old(self).singletons@[n], // [C06,C09]
        ret.is_some() == old(self).known(rid), old(self).side(final(self)),
//@ loop 0 src=&map_pairs elem=val
    invariant AUTO
        self == old(self), self.sing_ok(),
        s0@.len() == order_s(self.singletons).len(),
        forall|i: int| 0 <= i < s0@.len() ==> (#[trigger] s0@[i]).0@ == order_s(self.singletons)[i] && *s0@[i].1 == self.singletons@[order_s(self.singletons)[i]] && self.singletons@.contains_key(order_s(self.singletons)[i]),
        singleton_name matches Some(n) ==> self.singletons@.contains_key(n@) && self.singletons@[n@] == rid,
        singleton_name is None ==> forall|i: int| 0 <= i < k0 ==> *(#[trigger] s0@[i]).1 != rid,
//@ hint afterloop 0
    proof {
        if singleton_name is None { assert forall|n: Seq<char>| #[trigger] self.singletons@.contains_key(n) implies self.singletons@[n] != rid by {
            assert(order_s(self.singletons).contains(n));
            let j = choose|j: int| 0 <= j < order_s(self.singletons).len() && order_s(self.singletons)[j] == n;
            assert(*s0@[j].1 != rid);
        } }
    }
//@ end
//@ fn structs/node_tree_base.rs NodeTreeBase::register_as_singleton
    requires old(self).nodes.wf(), old(self).sing_ok(),
    ensures
        final(self).nodes.same(&old(self).nodes), final(self).nodes.wf(), final(self).mem@ == old(self).mem@, final(self).sing_ok(), old(self).side(final(self)),
        ret == (if !old(self).known(rid) { None } else { Some(!old(self).singletons@.contains_key(name@)) }), // [C09]
        ret != Some(true) ==> old(self).same(final(self)), // [C09]
        ret == Some(true) ==> final(self).singletons@.contains_key(name@) && final(self).singletons@[name@] == rid, // [C09]
        ret == Some(true) ==> forall|n: Seq<char>| n != name@ ==> (#[trigger] final(self).singletons@.contains_key(n) <==> old(self).singletons@.contains_key(n) && old(self).singletons@[n] != rid), // [C09]
        ret == Some(true) ==> forall|n: Seq<char>| n != name@ && #[trigger] final(self).singletons@.contains_key(n) ==> final(self).singletons@[n] == old(self).singletons@[n], // [C09]
        ret == Some(true) ==> forall|r: RID| r != rid && #[trigger] old(self).known(r) ==> final(self).identity@[r] == old(self).identity@[r], // [C09]
//@ loop 0
    invariant AUTO
        *self == *old(self),
        self.sing_ok(),
        s0@.len() == order_v(self.identity).len(),
        forall|i: int| 0 <= i < s0@.len() ==> *(#[trigger] s0@[i]) == self.identity@[order_v(self.identity)[i]] && self.identity@.contains_key(order_v(self.identity)[i]),
        !HIT0 ==> forall|i: int| 0 <= i < k0 ==> !((*(#[trigger] s0@[i])) matches NodeIdentity::UniqueName(s) && s@ == name@),
        HIT0 ==> self.singletons@.contains_key(name@),
//@ hint afterloop 0
    proof {
        if !HIT0 { assert forall|r: RID| #[trigger] self.identity@.contains_key(r) implies !self.named(r, name@) by {
            assert(order_v(self.identity).contains(r));
            let j = choose|j: int| 0 <= j < order_v(self.identity).len() && order_v(self.identity)[j] == r;
            assert(!((*s0@[j]) matches NodeIdentity::UniqueName(s) && s@ == name@));
        }
            if self.singletons@.contains_key(name@) { let r = self.singletons@[name@]; assert(self.known(r) && self.identity@.contains_key(r)); } }
    }
//@ end
//@ fn structs/node_tree_base.rs NodeTreeBase::get_node_identity | mcall=to_owned=>identity_clone
    ensures ret.is_some() == self.identity@.contains_key(rid), ret.is_some() ==> same_identity(ret.unwrap(), self.identity@[rid]),
//@ end
}
