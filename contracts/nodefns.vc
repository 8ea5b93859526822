//@ mode node
//@ fields name rid parent owner tree children status loaded depth
//@ type structs/tree_pointer.rs TPError copy eq
//@ type structs/node_base.rs NodeError
//@ subst PhantomData<&'a()> => PhantomData<()>
//@ subst *mut dyn NodeTree => TreePtr
//@ type structs/tree_result.rs TreeResult
//@ type structs/tree_option.rs TreeOption
//@ type structs/tree_pointer.rs TpDyn copy
//@ type structs/tree_pointer.rs Tp
//@ hmethods name rid tree tree_mut set_rid set_parent set_owner set_tree set_depth set_name_unchecked set_name owner_dyn parent_dyn depth is_root is_owner in_tree is_stray num_children childless children
//@ hmethods disconnnect_tree disconnnect_owner disconnnect_parent has_just_loaded mark_as_loaded mark_as_final get_all_valid_nodes register_node unregister_node
//@ hmethods top_down top_down_tail ready loaded process terminal process_mode set_status post
//@ hfns TpDyn::new Tp::new
//@ mode ptr
impl<T, E> TreeResult<T, E> {
    pub open spec fn at(&self, tree: TreePtr, owner: RID) -> bool { self.tree == tree && self.owner == owner }
//@ fn structs/tree_result.rs TreeResult::new
    ensures ret.at(tree, owner), ret.object == object,
//@ end
//@ fn structs/tree_result.rs TreeResult::ok
    ensures ret.at(self.tree, self.owner), ret.object == (match self.object { Ok(x) => Some(x), Err(_) => None }),
//@ end
//@ fn structs/tree_result.rs TreeResult::to_option
    ensures ret == (match self.object { Ok(x) => Some(x), Err(_) => None }),
//@ end
//@ fn structs/tree_result.rs TreeResult::map_err
    requires self.object matches Err(x) ==> op.requires((x,)),
    ensures ret.at(self.tree, self.owner),
    match self.object { Err(x) => ret.object matches Err(y) && op.ensures((x,), y), Ok(e) => ret.object == Ok::<T, F>(e) },
//@ end
//@ fn structs/tree_result.rs TreeResult::unwrap_unchecked | as=unwrap
    requires self.object is Ok,
    ensures self.object == Ok::<T, E>(ret),
//@ end
//@ fn structs/tree_result.rs TreeResult::expect | mcall=fail=>&:fail_ok
    ensures self.object == Ok::<T, E>(ret),
//@ end
}
use std::fmt;
#[verifier::external]
impl fmt::Debug for TPError { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { Ok(()) } }
#[verifier::external]
impl fmt::Display for TPError { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { Ok(()) } }
/// The error exit of results: it does not return, and is only taken for errors.
#[verifier::external_body]
pub fn fail_ok<T, E>(r: &TreeResult<T, E>, msg: &str, error: &E) -> ! requires r.object is Err, ensures false, { panic!() }
impl<T> TreeOption<T> {
    pub open spec fn at(&self, tree: TreePtr, owner: RID) -> bool { self.tree == tree && self.owner == owner }
//@ fn structs/tree_option.rs TreeOption::new
    ensures ret.at(tree, owner), ret.object == object,
//@ end
//@ fn structs/tree_option.rs TreeOption::to_option
    ensures ret == self.object,
//@ end
}
impl TpDyn {
//@ fn structs/tree_pointer.rs TpDyn::new | h=ref
    ensures ret.at(tree, owner), match ret.object { // [C11]
        Ok(t) => h.known(node) && t.tree == tree && t.owner == owner && t.node == node, // [C11]
        Err(e) => !h.known(node) && e == TPError::IsNull, // [C11]
    },
//@ end
    /// Dereferences to the node.
    pub fn rid(&self, h: &NodeTreeBase) -> (ret: RID) requires h.alloc(), h.known(self.node), ensures ret == self.node, { h.mem.get(h.get_node(self.node).unwrap()).rid }
    pub fn name<'a>(&self, h: &'a NodeTreeBase) -> (ret: &'a str) requires h.alloc(), h.known(self.node), ensures ret@ == h.nd(self.node).name@, { h.get_node(self.node).unwrap().name(h) }
}
//@ mode node
impl NodePtr {
//@ fn structs/node_base.rs NodeBase::name | h=ref
    requires h.mem@.contains_key(self),
    ensures ret@ == h.mem@[self].name@,
//@ end
//@ fn structs/node_base.rs NodeBase::rid | h=ref
    requires h.mem@.contains_key(self),
    ensures ret == h.mem@[self].rid,
//@ end
//@ fn structs/node_base.rs NodeBase::depth | h=ref
    requires h.mem@.contains_key(self),
    ensures ret == h.mem@[self].depth,
//@ end
//@ fn structs/node_base.rs NodeBase::tree | h=ref
    requires h.mem@.contains_key(self),
    ensures ret == h.mem@[self].tree,
//@ end
//@ fn structs/node_base.rs NodeBase::tree_mut | h=ref
    requires h.mem@.contains_key(self),
    ensures ret == h.mem@[self].tree,
//@ end
//@ fn structs/node_base.rs NodeBase::in_tree | h=ref
    requires h.mem@.contains_key(self),
    ensures ret == h.mem@[self].tree is Some,
//@ end
//@ fn structs/node_base.rs NodeBase::is_stray | h=ref
    requires h.mem@.contains_key(self),
    ensures ret == h.mem@[self].tree is None,
//@ end
//@ fn structs/node_base.rs NodeBase::is_root | h=ref
    requires h.mem@.contains_key(self),
    ensures ret == (h.mem@[self].parent is None && h.mem@[self].tree is Some),
//@ end
//@ fn structs/node_base.rs NodeBase::is_owner | h=ref
    requires h.mem@.contains_key(self),
    ensures ret == (h.mem@[self].owner == Some(h.mem@[self].rid)),
//@ end
//@ fn structs/node_base.rs NodeBase::has_just_loaded | h=ref
    requires h.mem@.contains_key(self),
    ensures ret == h.mem@[self].loaded,
//@ end
//@ fn structs/node_base.rs NodeBase::set_name_unchecked | h=mut mcall=to_string=>&:to_text
    requires old(h).mem@.contains_key(self),
    ensures
        old(h).but_mem(final(h)), final(h).mem@ == old(h).mem@.insert(self, final(h).mem@[self]),
        final(h).mem@[self].name@ == name@, final(h).mem@[self] == (NodeBase { name: final(h).mem@[self].name, ..old(h).mem@[self] }),
//@ end
//@ fn structs/node_base.rs NodeBase::set_rid | h=mut
    requires old(h).mem@.contains_key(self),
    ensures old(h).but_mem(final(h)), final(h).mem@ == old(h).mem@.insert(self, NodeBase { rid: rid, ..old(h).mem@[self] }),
//@ end
//@ fn structs/node_base.rs NodeBase::set_tree | h=mut
    requires old(h).mem@.contains_key(self),
    ensures old(h).but_mem(final(h)), final(h).mem@ == old(h).mem@.insert(self, NodeBase { tree: Some(tree), ..old(h).mem@[self] }),
//@ end
//@ fn structs/node_base.rs NodeBase::disconnnect_tree | h=mut
    requires old(h).mem@.contains_key(self),
    ensures old(h).but_mem(final(h)), final(h).mem@ == old(h).mem@.insert(self, NodeBase { tree: None, ..old(h).mem@[self] }),
//@ end
//@ fn structs/node_base.rs NodeBase::set_owner | h=mut
    requires old(h).mem@.contains_key(self),
    ensures old(h).but_mem(final(h)), final(h).mem@ == old(h).mem@.insert(self, NodeBase { owner: Some(owner), ..old(h).mem@[self] }),
//@ end
//@ fn structs/node_base.rs NodeBase::disconnnect_owner | h=mut
    requires old(h).mem@.contains_key(self),
    ensures old(h).but_mem(final(h)), final(h).mem@ == old(h).mem@.insert(self, NodeBase { owner: None, ..old(h).mem@[self] }),
//@ end
//@ fn structs/node_base.rs NodeBase::set_parent | h=mut
    requires old(h).mem@.contains_key(self),
    ensures old(h).but_mem(final(h)), final(h).mem@ == old(h).mem@.insert(self, NodeBase { parent: Some(parent), ..old(h).mem@[self] }),
//@ end
//@ fn structs/node_base.rs NodeBase::disconnnect_parent | h=mut
    requires old(h).mem@.contains_key(self),
    ensures old(h).but_mem(final(h)), final(h).mem@ == old(h).mem@.insert(self, NodeBase { parent: None, ..old(h).mem@[self] }),
//@ end
//@ fn structs/node_base.rs NodeBase::set_depth | h=mut
    requires old(h).mem@.contains_key(self),
    ensures old(h).but_mem(final(h)), final(h).mem@ == old(h).mem@.insert(self, NodeBase { depth: depth, ..old(h).mem@[self] }),
//@ end
//@ fn structs/node_base.rs NodeBase::mark_as_loaded | h=mut
    requires old(h).mem@.contains_key(self),
    ensures old(h).but_mem(final(h)), final(h).mem@ == old(h).mem@.insert(self, NodeBase { loaded: true, ..old(h).mem@[self] }),
//@ end
//@ fn structs/node_base.rs NodeBase::mark_as_final | h=mut
    requires old(h).mem@.contains_key(self),
    ensures old(h).but_mem(final(h)), final(h).mem@ == old(h).mem@.insert(self, NodeBase { loaded: false, ..old(h).mem@[self] }),
//@ end
//@ fn structs/node_base.rs NodeBase::children | h=ref panics=h.mem.view()[self].tree.is_none()
    requires h.mem@.contains_key(self), h.mem@[self].tree is Some ==> (forall|i: int| 0 <= i < h.mem@[self].children@.len() ==> h.known(#[trigger] h.mem@[self].children@[i])),
    ensures
        h.inside(self), // [C22]
        ret@.len() == h.mem@[self].children@.len(), forall|i: int| 0 <= i < ret@.len() ==> (#[trigger] ret@[i]).node == h.mem@[self].children@[i] && h.known(ret@[i].node),
//@ loop 0 out=Vec<TpDyn>
    invariant AUTO
        h.inside(self), forall|i: int| 0 <= i < h.mem@[self].children@.len() ==> h.known(#[trigger] h.mem@[self].children@[i]),
        s0@ == h.mem@[self].children@, o0@.len() == k0,
        forall|i: int| 0 <= i < k0 ==> (#[trigger] o0@[i]).node == s0@[i] && h.known(o0@[i].node),
//@ end
//@ fn structs/node_base.rs NodeBase::num_children | h=ref panics=h.mem.view()[self].tree.is_none()
    requires h.mem@.contains_key(self), h.mem@[self].tree is Some ==> (forall|i: int| 0 <= i < h.mem@[self].children@.len() ==> h.known(#[trigger] h.mem@[self].children@[i])),
    ensures
        h.inside(self), // [C22]
        ret == h.mem@[self].children@.len(),
//@ end
//@ fn structs/node_base.rs NodeBase::childless | h=ref panics=h.mem.view()[self].tree.is_none()
    requires h.mem@.contains_key(self), h.mem@[self].tree is Some ==> (forall|i: int| 0 <= i < h.mem@[self].children@.len() ==> h.known(#[trigger] h.mem@[self].children@[i])),
    ensures
        h.inside(self), // [C22]
        ret == (h.mem@[self].children@.len() == 0),
//@ end
}
