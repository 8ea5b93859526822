impl<T> RIDHolder<T> { pub open spec fn same(&self, b: &Self) -> bool { self.data@ == b.data@ && self.vacant@ == b.vacant@ && self.highest == b.highest } }
pub open spec fn same_identity(a: NodeIdentity, b: NodeIdentity) -> bool { match (a, b) { (NodeIdentity::NodePath, NodeIdentity::NodePath) => true, (NodeIdentity::UniqueName(x), NodeIdentity::UniqueName(y)) => x@ == y@, _ => false } }
#[verifier::external_body]
pub fn identity_clone(a: &NodeIdentity) -> (ret: NodeIdentity) ensures same_identity(ret, *a), { unimplemented!() }
pub open spec fn link_of(n: NodeBase) -> Link { Link { parent: n.parent, owner: n.owner, kids: n.children@, depth: n.depth as int } }
/// a is where b started.
pub open spec fn is_prefix<A>(a: Seq<A>, b: Seq<A>) -> bool { a.len() <= b.len() && b.take(a.len() as int) == a }
/// What a hook may do to the status of the tree.
pub open spec fn forward(a: TreeStatus, b: TreeStatus) -> bool {
    a == b || b == TreeStatus::Terminated || (a matches TreeStatus::Process(p) && b == TreeStatus::QueuedTermination(p))
}
impl NodeTreeBase {
    pub open spec fn known(&self, r: RID) -> bool { self.nodes.data@.contains_key(r) }
    pub open spec fn ptr(&self, r: RID) -> NodePtr { self.nodes.data@[r] }
    /// The data of a known node.
    pub open spec fn nd(&self, r: RID) -> NodeBase { self.mem@[self.nodes.data@[r]] }
    /// The status of a known node.
    pub open spec fn stat(&self, r: RID) -> Stat { self.stats@[self.nodes.data@[r]] }
    pub open spec fn links(&self) -> Links { self.nodes.data@.map_values(|p: NodePtr| link_of(self.mem@[p])) }
    /// A pointer to a node that the tree knows.
    pub open spec fn live(&self, p: NodePtr) -> bool { self.mem@.contains_key(p) && self.known(self.mem@[p].rid) && self.ptr(self.mem@[p].rid) == p }
    /// A pointer to an allocated node, which is this one if it claims to be in the tree.
    pub open spec fn held(&self, p: NodePtr) -> bool { self.mem@.contains_key(p) && (self.mem@[p].tree is Some ==> self.live(p)) }
    /// A pointer to an allocated node that is in the tree.
    pub open spec fn inside(&self, p: NodePtr) -> bool { self.mem@.contains_key(p) && self.mem@[p].tree is Some }
    pub open spec fn id(&self, p: NodePtr) -> RID { self.mem@[p].rid }
    /// Every known node is allocated and carries its own id.
    pub open spec fn alloc(&self) -> bool {
        forall|r: RID| #[trigger] self.known(r) ==> self.mem@.contains_key(self.ptr(r)) && self.nd(r).rid == r && self.nd(r).tree is Some
    }
    pub open spec fn named(&self, r: RID, n: Seq<char>) -> bool { self.identity@[r] matches NodeIdentity::UniqueName(s) && s@ == n }
    /// Singleton names and identities agree.
    pub open spec fn sing_ok(&self) -> bool {
        &&& forall|r: RID| #[trigger] self.identity@.contains_key(r) <==> self.known(r)
        &&& forall|n: Seq<char>| #[trigger] self.singletons@.contains_key(n) ==> self.known(self.singletons@[n]) && self.named(self.singletons@[n], n)
        &&& forall|r: RID| #[trigger] self.identity@.contains_key(r) ==> (self.identity@[r] matches NodeIdentity::UniqueName(s) ==> self.singletons@.contains_key(s@) && self.singletons@[s@] == r)
    }
    /// No two children of a node have the same name.
    pub open spec fn names_ok(&self) -> bool {
        forall|r: RID, s: RID| #[trigger] self.known(r) && #[trigger] self.known(s) && r != s && self.nd(r).parent is Some && self.nd(r).parent == self.nd(s).parent ==> self.nd(r).name@ != self.nd(s).name@
    }
    /// The consistency of the tree.
    pub open spec fn inv(&self) -> bool { self.shape_ok() && self.sing_ok() && self.names_ok() }
    pub open spec fn shape_ok(&self) -> bool { self.nodes.wf() && self.alloc() && tree_ok(self.links()) }
    /// There is room for one more node.
    pub open spec fn room(&self) -> bool { self.nodes.highest < u64::MAX }
    /// The same nodes with the same links and names.
    pub open spec fn same(&self, b: &NodeTreeBase) -> bool { self.mem@ == b.mem@ && self.nodes.same(&b.nodes) && self.identity@ == b.identity@ && self.singletons@ == b.singletons@ }
    /// Equal but for the nodes of the tree themselves.
    pub open spec fn side(&self, b: &NodeTreeBase) -> bool { self.status == b.status && self.events@ == b.events@ && self.logger == b.logger && self.last_frame == b.last_frame }
    /// Equal but for the data of the nodes.
    pub open spec fn but_mem(&self, b: &NodeTreeBase) -> bool { self.nodes.same(&b.nodes) && self.identity@ == b.identity@ && self.singletons@ == b.singletons@ && self.side(b) }
    /// From self a hook was called once, it left b.
    pub open spec fn hooked(&self, b: &NodeTreeBase, e: Event) -> bool {
        &&& is_prefix(self.events@.push(e), b.events@)
        &&& forward(self.status, b.status)
        &&& self.inv() ==> b.inv()
        &&& forall|p: NodePtr| keeps(p) && #[trigger] self.live(p) ==> b.live(p) && b.id(p) == self.id(p)
        &&& quiet() ==> self.same(b) && b.events@ == self.events@.push(e) && b.last_frame == self.last_frame
    }
}
pub proof fn lemma_same(a: &NodeTreeBase, b: &NodeTreeBase)
    requires a.same(b),
    ensures a.links() == b.links(), a.inv() == b.inv(), a.alloc() == b.alloc(), a.sing_ok() == b.sing_ok(), a.names_ok() == b.names_ok(),
{
    assert(a.links() =~= b.links());
    assert(forall|r: RID| a.known(r) == b.known(r));
    assert(forall|r: RID| a.nd(r) == b.nd(r));
}
impl NodePtr {
    #[verifier::external_body]
    pub fn ready(self, h: &mut NodeTreeBase)
        requires old(h).live(self), old(h).inv() || quiet(),
        ensures old(h).hooked(final(h), Event::Ready(old(h).id(self))),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn loaded(self, h: &mut NodeTreeBase)
        requires old(h).live(self), old(h).inv() || quiet(),
        ensures old(h).hooked(final(h), Event::Loaded(old(h).id(self))),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn process(self, delta: f32, h: &mut NodeTreeBase)
        requires old(h).live(self), old(h).inv() || quiet(), old(h).status != TreeStatus::Terminated,
        ensures old(h).hooked(final(h), Event::Process(old(h).id(self), delta)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn terminal(self, reason: TerminationReason, h: &mut NodeTreeBase)
        requires old(h).live(self), old(h).inv() || quiet(),
        ensures old(h).hooked(final(h), Event::Terminal(old(h).id(self), reason)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn process_mode(self, h: &NodeTreeBase) -> (ret: ProcessMode)
        requires h.live(self),
        ensures quiet() ==> ret == mode_of(self),
    { unimplemented!() }
    /// The status cell of a node (a mutex that no one else holds): trusted.
    #[verifier::external_body]
    pub fn set_status(self, status: NodeStatus, h: &mut NodeTreeBase)
        requires old(h).mem@.contains_key(self),
        ensures *final(h) == (NodeTreeBase { stats: Ghost(old(h).stats@.insert(self, stat_of(status))), ..*old(h) }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn status(self, h: &NodeTreeBase) -> (ret: NodeStatus)
        requires h.mem@.contains_key(self),
        ensures stat_of(ret) == h.stats@[self],
    { unimplemented!() }
}
/// The pointer to the tree behaves like the tree.
impl TreePtr {
    pub fn get_node(self, rid: RID, h: &NodeTreeBase) -> (ret: Option<NodePtr>) ensures ret == (if h.known(rid) { Some(h.ptr(rid)) } else { None }), { h.get_node(rid) }
    pub fn get_node_raw(self, rid: RID, h: &NodeTreeBase) -> (ret: Option<NodePtr>) ensures ret == (if h.known(rid) { Some(h.ptr(rid)) } else { None }), { h.get_node_raw(rid) }
    pub fn get_node_mut_raw(self, rid: RID, h: &NodeTreeBase) -> (ret: Option<NodePtr>) ensures ret == (if h.known(rid) { Some(h.ptr(rid)) } else { None }), { h.get_node_mut_raw(rid) }
    pub fn get_node_mut(self, rid: RID, h: &mut NodeTreeBase) -> (ret: Option<NodePtr>)
        requires old(h).nodes.wf(),
        ensures ret == (if old(h).known(rid) { Some(old(h).ptr(rid)) } else { None }), old(h).same(final(h)), old(h).side(final(h)), final(h).nodes.wf(),
    { h.get_node_mut(rid) }
    pub fn get_all_valid_nodes(self, rids: &[RID], h: &NodeTreeBase) -> (ret: Vec<NodePtr>)
        ensures ret@ == rids@.filter(|r: RID| h.known(r)).map_values(|r: RID| h.ptr(r)),
    { h.get_all_valid_nodes(rids) }
    pub fn register_node(self, node: NodePtr, h: &mut NodeTreeBase) -> (ret: RID)
        requires old(h).nodes.wf(), old(h).room(),
        ensures
            final(h).nodes.wf(), !old(h).known(ret),
            final(h).nodes.data@ == old(h).nodes.data@.insert(ret, node), final(h).nodes.highest <= old(h).nodes.highest + 1,
            final(h).identity@ == old(h).identity@.insert(ret, NodeIdentity::NodePath),
            final(h).mem@ == old(h).mem@, final(h).singletons@ == old(h).singletons@, old(h).side(final(h)),
    { h.register_node(node) }
}
