// Tree pointers.
//@ mode ptr
//@ hmethods fail self.get self.get_mut try_get try_get_mut
//@ subst &dyn Any => NodePtr
//@ subst &mut dyn Any => NodePtr
/// A node of a known type.
#[derive(Clone, Copy)]
pub struct Typed<T> { pub p: NodePtr, pub t: PhantomData<T> }
/// A node seen as a trait object.
#[derive(Clone, Copy)]
pub struct Cast<T: ?Sized> { pub p: NodePtr, pub t: PhantomData<T> }
/// Whether the type of the node extends a trait (its `#[extends]` list), what `portable_intertrait` looks up: trusted.
pub uninterp spec fn extends<T: ?Sized>(p: NodePtr) -> bool;
#[verifier::external_body]
pub fn cast_impls<T: ?Sized>(p: NodePtr) -> (ret: bool) ensures ret == extends::<T>(p), { unimplemented!() }
#[verifier::external_body]
pub fn cast_ref<T: ?Sized>(p: NodePtr) -> (ret: Option<Cast<T>>) ensures ret is Some == extends::<T>(p), ret matches Some(x) ==> x.p == p, { unimplemented!() }
impl NodePtr {
    /// The node as `Any`: what the Abstract derive generates, trusted.
    #[verifier::external_body]
    pub fn as_any_ref(self) -> (ret: NodePtr) ensures ret == self, { unimplemented!() }
    #[verifier::external_body]
    pub fn as_any_mut(self) -> (ret: NodePtr) ensures ret == self, { unimplemented!() }
    #[verifier::external_body]
    pub fn downcast_ref<T>(self) -> (ret: Option<Typed<T>>) ensures ret is Some == is_type::<T>(self), ret matches Some(x) ==> x.p == self, { unimplemented!() }
    #[verifier::external_body]
    pub fn downcast_mut<T>(self) -> (ret: Option<Typed<T>>) ensures ret is Some == is_type::<T>(self), ret matches Some(x) ==> x.p == self, { unimplemented!() }
}
impl<T: Node> Tp<T> {
    pub open spec fn valid(&self, h: &NodeTreeBase) -> bool { h.known(self.node) && is_type::<T>(h.ptr(self.node)) }
    pub open spec fn err(&self, h: &NodeTreeBase) -> TPError { if h.known(self.node) { TPError::WrongType } else { TPError::IsNull } }
    /// Posts to the log and panics. Trusted to be reached only for invalid pointers (its precondition).
    #[verifier::external_body]
    pub fn fail<A>(&self, err: TPError, h: &NodeTreeBase) -> (ret: A) requires !self.valid(h), ensures false, { unimplemented!() }
//@ fn structs/tree_pointer.rs Tp::new | h=ref
    ensures ret.at(tree, owner), match ret.object { // [C11]
        Ok(t) => t.valid(h) && t.tree == tree && t.owner == owner && t.node == node, // [C11]
        Err(e) => !(h.known(node) && is_type::<T>(h.ptr(node))) && e == (if h.known(node) { TPError::WrongType } else { TPError::IsNull }), // [C11]
    },
//@ end
//@ fn structs/tree_pointer.rs Tp::to_dyn | h=ref
    ensures h.known(self.node), ret.node == self.node, ret.owner == self.owner, ret.tree == self.tree, // [C11]
//@ end
//@ fn structs/tree_pointer.rs Tp::try_to_dyn | h=ref
    ensures ret.at(self.tree, self.owner), match ret.object { // [C11]
        Ok(t) => h.known(self.node) && t.tree == self.tree && t.owner == self.owner && t.node == self.node, // [C11]
        Err(e) => !h.known(self.node) && e == TPError::IsNull, // [C11]
    },
//@ end
//@ fn structs/tree_pointer.rs Tp::is_valid | h=ref
    ensures ret == self.valid(h), // [C11]
//@ end
//@ fn structs/tree_pointer.rs Tp::is_null | h=ref
    ensures ret == !self.valid(h), // [C11]
//@ end
//@ fn structs/tree_pointer.rs Tp::get | h=ref subst=&T=>Typed<T>
    ensures self.valid(h), ret.p == h.ptr(self.node), // [C11]
//@ end
//@ fn structs/tree_pointer.rs Tp::try_get | h=ref subst=&T=>Typed<T>
    ensures ret.at(self.tree, self.owner), match ret.object { Ok(x) => self.valid(h) && x.p == h.ptr(self.node), Err(e) => !self.valid(h) && e == self.err(h) }, // [C11]
//@ end
//@ fn structs/tree_pointer.rs Tp::get_mut | h=ref subst=&mutT=>Typed<T>
    ensures old(self).valid(h), ret.p == h.ptr(old(self).node), *final(self) == *old(self), // [C11]
//@ end
//@ fn structs/tree_pointer.rs Tp::try_get_mut | h=ref subst=&mutT=>Typed<T>
    ensures *final(self) == *old(self), ret.at(old(self).tree, old(self).owner), match ret.object { Ok(x) => old(self).valid(h) && x.p == h.ptr(old(self).node), Err(e) => !old(self).valid(h) && e == old(self).err(h) }, // [C11]
//@ end
//@ fn structs/tree_pointer.rs <Deref for Tp>::deref | h=ref subst=&Self::Target=>Typed<T>
    ensures self.valid(h), ret.p == h.ptr(self.node), // [C11]
//@ end
//@ fn structs/tree_pointer.rs <DerefMut for Tp>::deref_mut | h=ref subst=&mutSelf::Target=>Typed<T>
    ensures old(self).valid(h), ret.p == h.ptr(old(self).node), *final(self) == *old(self), // [C11]
//@ end
}
impl TpDyn {
    pub open spec fn valid(&self, h: &NodeTreeBase) -> bool { h.known(self.node) }
    #[verifier::external_body]
    pub fn fail<A>(&self, err: TPError, h: &NodeTreeBase) -> (ret: A) requires !self.valid(h), ensures false, { unimplemented!() }
//@ fn structs/tree_pointer.rs TpDyn::is_valid | h=ref
    ensures ret == self.valid(h), // [C11]
//@ end
//@ fn structs/tree_pointer.rs TpDyn::is_null | h=ref
    ensures ret == !self.valid(h), // [C11]
//@ end
//@ fn structs/tree_pointer.rs TpDyn::is | h=ref
    ensures ret == (h.known(self.node) && is_type::<T>(h.ptr(self.node))), // [C11]
//@ end
//@ fn structs/tree_pointer.rs TpDyn::is_of | h=ref path=<dynNodeasCastRef>::impls::<T>=>cast_impls::<T>
    ensures ret == (self.valid(h) && extends::<T>(h.ptr(self.node))), // [C11]
//@ end
//@ fn structs/tree_pointer.rs TpDyn::cast | h=ref subst=&T=>Cast<T> path=<dynNodeasCastRef>::cast::<T>=>cast_ref::<T>
    ensures ret.at(self.tree, self.owner), match ret.object { // [C11]
        Ok(x) => self.valid(h) && extends::<T>(h.ptr(self.node)) && x.p == h.ptr(self.node), // [C11]
        Err(e) => !(self.valid(h) && extends::<T>(h.ptr(self.node))) && e == (if self.valid(h) { TPError::DynCastFailed } else { TPError::AttemptedDynCastOnNull }), // [C11]
    },
//@ end
//@ fn structs/tree_pointer.rs TpDyn::cast_mut | h=ref subst=&mutT=>Cast<T> path=<dynNodeasCastMut>::cast::<T>=>cast_ref::<T>
    ensures *final(self) == *old(self), ret.at(old(self).tree, old(self).owner), match ret.object { // [C11]
        Ok(x) => old(self).valid(h) && extends::<T>(h.ptr(old(self).node)) && x.p == h.ptr(old(self).node), // [C11]
        Err(e) => !(old(self).valid(h) && extends::<T>(h.ptr(old(self).node))) && e == (if old(self).valid(h) { TPError::DynCastFailed } else { TPError::AttemptedDynCastOnNull }), // [C11]
    },
//@ end
//@ fn structs/tree_pointer.rs TpDyn::to | h=ref
    ensures ret.at(self.tree, self.owner), match ret.object { // [C11]
        Ok(t) => t.valid(h) && t.tree == self.tree && t.owner == self.owner && t.node == self.node, // [C11]
        Err(e) => !(h.known(self.node) && is_type::<T>(h.ptr(self.node))) && e == (if h.known(self.node) { TPError::WrongType } else { TPError::IsNull }), // [C11]
    },
//@ end
//@ fn structs/tree_pointer.rs TpDyn::get | h=ref
    ensures self.valid(h), ret == h.ptr(self.node), // [C11]
//@ end
//@ fn structs/tree_pointer.rs TpDyn::try_get | h=ref
    ensures ret.at(self.tree, self.owner), match ret.object { Ok(x) => self.valid(h) && x == h.ptr(self.node), Err(e) => !self.valid(h) && e == TPError::IsNull }, // [C11]
//@ end
//@ fn structs/tree_pointer.rs TpDyn::get_mut | h=ref
    ensures old(self).valid(h), ret == h.ptr(old(self).node), *final(self) == *old(self), // [C11]
//@ end
//@ fn structs/tree_pointer.rs TpDyn::try_get_mut | h=ref
    ensures *final(self) == *old(self), ret.at(old(self).tree, old(self).owner), match ret.object { Ok(x) => old(self).valid(h) && x == h.ptr(old(self).node), Err(e) => !old(self).valid(h) && e == TPError::IsNull }, // [C11]
//@ end
//@ fn structs/tree_pointer.rs <Deref for TpDyn>::deref | h=ref subst=&Self::Target=>NodePtr
    ensures self.valid(h), ret == h.ptr(self.node), // [C11]
//@ end
//@ fn structs/tree_pointer.rs <DerefMut for TpDyn>::deref_mut | h=ref subst=&mutSelf::Target=>NodePtr
    ensures old(self).valid(h), ret == h.ptr(old(self).node), *final(self) == *old(self), // [C11]
//@ end
}
