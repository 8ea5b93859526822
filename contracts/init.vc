// Starting a tree from a scene.
//@ mode tree
//@ hmethods add_child_from_ptr set_rid set_owner set_tree ready loaded mark_as_final has_just_loaded name rid
/// A tree without nodes.
pub open spec fn blank(h: &NodeTreeBase) -> bool { h.nodes.data@ == Map::<RID, NodePtr>::empty() && h.nodes.vacant@.len() == 0 && h.nodes.highest == 0 && h.identity@ == Map::<RID, NodeIdentity>::empty() && h.singletons@ == Map::<Seq<char>, RID>::empty() }
/// b is a with the node at p as the root.
pub open spec fn planted(a: &NodeTreeBase, b: &NodeTreeBase, p: NodePtr) -> bool {
    &&& b.nodes.wf() && b.nodes.data@ == Map::<RID, NodePtr>::empty().insert(0, p) && b.nodes.highest <= 1
    &&& b.identity@ == Map::<RID, NodeIdentity>::empty().insert(0, NodeIdentity::NodePath) && b.singletons@ == a.singletons@
    &&& b.mem@ == a.mem@.insert(p, b.mem@[p]) && b.mem@[p].tree is Some && b.mem@[p] == (NodeBase { rid: 0, owner: Some(0), tree: b.mem@[p].tree, ..a.mem@[p] })
    &&& b.events@ == a.events@ && b.status == a.status && b.last_frame == a.last_frame
}
proof fn lemma_planted(a: &NodeTreeBase, b: &NodeTreeBase, p: NodePtr)
    requires blank(a), planted(a, b, p), fresh(a, p), a.mem@[p].parent is None, a.mem@[p].depth == 0,
    ensures b.inv(), b.live(p), b.id(p) == 0, forall|q: NodePtr| #[trigger] fresh(a, q) && q != p ==> fresh(b, q) && b.mem@[q] == a.mem@[q],
{
    let m = b.links();
    assert forall|r: RID| #[trigger] m.contains_key(r) implies up_ok(m, r) && down_ok(m, r) && m.contains_key(0) by { assert(r == 0); assert(b.mem@[p].children@ == a.mem@[p].children@); }
    assert forall|q: NodePtr| #[trigger] fresh(a, q) && q != p implies fresh(b, q) && b.mem@[q] == a.mem@[q] by { assert(b.mem@[q] == a.mem@[q]); }
}
/// What a scene visits when it starts a tree: the root, then nodes that each go under one that came before.
pub open spec fn visits_from_root(h: &NodeTreeBase, v: Seq<Visit>) -> bool {
    &&& v.len() > 0 && v[0].0 is None && h.mem@[v[0].1].parent is None && h.mem@[v[0].1].depth == 0
    &&& forall|i: int| 0 < i < v.len() ==> (#[trigger] v[i]).0 is Some
    &&& visits_ok(h, v[0].1, v)
}
pub open spec fn ids_of(h: &NodeTreeBase, v: Seq<Visit>) -> Seq<RID> { v.map_values(|x: Visit| h.id(x.1)) }
/// The calls that the last k listed nodes get, last first.
pub open spec fn woken(h: &NodeTreeBase, s: Seq<RID>, k: int) -> Seq<Event>
    decreases k
{ if k <= 0 { seq![] } else { woken(h, s, k - 1) + announce(s[s.len() - k], h.nd(s[s.len() - k]).loaded) } }
/// From c the last k listed nodes were called; they count as not loaded any more, nothing else differs.
pub open spec fn readied(c: &NodeTreeBase, h: &NodeTreeBase, s: Seq<RID>, k: int) -> bool {
    &&& h.nodes.same(&c.nodes) && h.identity@ == c.identity@ && h.singletons@ == c.singletons@ && h.last_frame == c.last_frame
    &&& forall|p: NodePtr| #[trigger] h.mem@.contains_key(p) <==> c.mem@.contains_key(p)
    &&& forall|p: NodePtr| #[trigger] c.mem@.contains_key(p) ==> h.mem@[p] == (NodeBase { loaded: c.mem@[p].loaded && !(exists|i: int| s.len() - k <= i < s.len() && c.ptr(#[trigger] s[i]) == p), ..c.mem@[p] })
    &&& h.events@ == c.events@ + woken(c, s, k)
}
/// The marks do not matter to the consistency of the tree.
proof fn lemma_readied(c: &NodeTreeBase, h: &NodeTreeBase, s: Seq<RID>, k: int)
    requires c.inv(), readied(c, h, s, k), h.nodes.wf(),
    ensures h.inv(), h.links() == c.links(), forall|r: RID| #[trigger] h.known(r) ==> h.live(h.ptr(r)),
{
    assert forall|r: RID| #[trigger] h.known(r) implies c.known(r) && h.mem@.contains_key(h.ptr(r)) && h.nd(r) == (NodeBase { loaded: h.nd(r).loaded, ..c.nd(r) }) by { assert(c.known(r)); assert(c.mem@.contains_key(c.ptr(r))); }
    assert(h.links() =~= c.links()) by { assert forall|r: RID| #[trigger] h.links().contains_key(r) implies h.links()[r] == c.links()[r] by { assert(h.known(r)); } }
    assert forall|r: RID, t: RID| #[trigger] h.known(r) && #[trigger] h.known(t) && r != t && h.nd(r).parent is Some && h.nd(r).parent == h.nd(t).parent implies h.nd(r).name@ != h.nd(t).name@ by { assert(c.known(r) && c.known(t)); }
}
proof fn lemma_marked_blank(a: &NodeTreeBase, b: &NodeTreeBase, v: Seq<Visit>, m: Seq<bool>)
    requires marked(a, b, v, m), blank(a), visits_from_root(a, v),
    ensures blank(b), visits_from_root(b, v),
{
    lemma_marked(a, b, v[0].1, v, m);
    assert(b.mem@[v[0].1] == (NodeBase { loaded: b.mem@[v[0].1].loaded, ..a.mem@[v[0].1] }));
}
proof fn lemma_root_visits(a: &NodeTreeBase, b: &NodeTreeBase, v: Seq<Visit>)
    requires blank(a), visits_from_root(a, v), planted(a, b, v[0].1),
    ensures b.inv(), b.live(v[0].1), b.id(v[0].1) == 0, visits_ok(b, v[0].1, v.skip(1)),
{
    let w = v.skip(1); let root = v[0].1;
    lemma_planted(a, b, root);
    assert forall|i: int| 0 <= i < w.len() implies fresh(b, (#[trigger] w[i]).1) by { let _ = v[i + 1]; assert(fresh(a, v[i + 1].1)); assert(v[0].1 != v[i + 1].1); }
    assert forall|i: int, j: int| 0 <= i < j < w.len() implies (#[trigger] w[i]).1 != (#[trigger] w[j]).1 by { assert(v[i + 1].1 != v[j + 1].1); }
    assert forall|i: int| 0 <= i < w.len() implies ((#[trigger] w[i]).0 matches Some(q) ==> q == root || exists|j: int| 0 <= j < i && (#[trigger] w[j]).1 == q) by {
        let x = v[i + 1];
        if let Some(q) = x.0 { if q != root { let j = choose|j: int| 0 <= j < i + 1 && (#[trigger] v[j]).1 == q; assert(w[j - 1].1 == q); } }
    }
}
proof fn lemma_readied_none(c: &NodeTreeBase, s: Seq<RID>)
    ensures readied(c, c, s, 0),
{ assert(c.events@ + woken(c, s, 0) =~= c.events@); }
proof fn lemma_readied_step(c: &NodeTreeBase, f: &NodeTreeBase, h: &NodeTreeBase, s: Seq<RID>, k: int)
    requires
        c.inv(), readied(c, f, s, k), 0 <= k < s.len(), c.known(s[s.len() - 1 - k]), h.nodes.same(&f.nodes), h.identity@ == f.identity@, h.singletons@ == f.singletons@, h.last_frame == f.last_frame,
        h.mem@ == f.mem@.insert(c.ptr(s[s.len() - 1 - k]), NodeBase { loaded: false, ..f.nd(s[s.len() - 1 - k]) }) || (!f.nd(s[s.len() - 1 - k]).loaded && h.mem@ == f.mem@),
        h.events@ == f.events@ + announce(s[s.len() - 1 - k], c.nd(s[s.len() - 1 - k]).loaded),
    ensures readied(c, h, s, k + 1),
{
    let x = s[s.len() - 1 - k]; let p = c.ptr(x);
    assert(c.mem@.contains_key(p)); assert(f.ptr(x) == p);
    assert forall|q: NodePtr| #[trigger] c.mem@.contains_key(q) implies h.mem@[q] == (NodeBase { loaded: c.mem@[q].loaded && !(exists|i: int| s.len() - (k + 1) <= i < s.len() && c.ptr(#[trigger] s[i]) == q), ..c.mem@[q] }) by {
        let (u, w) = (exists|i: int| s.len() - k <= i < s.len() && c.ptr(#[trigger] s[i]) == q, exists|i: int| s.len() - (k + 1) <= i < s.len() && c.ptr(#[trigger] s[i]) == q);
        if w && q != p { let i = choose|i: int| s.len() - (k + 1) <= i < s.len() && c.ptr(#[trigger] s[i]) == q; assert(i != s.len() - 1 - k); assert(u); }
        if q == p { assert(c.ptr(s[s.len() - 1 - k]) == q); assert(w); }
        assert(f.mem@.contains_key(q));
    }
    assert(h.events@ =~= c.events@ + woken(c, s, k + 1));
}
/// The tree started: the scene's nodes in their places, called from the last to the first.
pub open spec fn started(a: &NodeTreeBase, d: &NodeTreeBase, v: Seq<Visit>, saved: Seq<bool>) -> bool {
    exists|m: NodeTreeBase, b: NodeTreeBase, c: NodeTreeBase| {
        &&& #[trigger] marked(a, &m, v, saved)
        &&& #[trigger] planted(&m, &b, v[0].1)
        &&& attached(&b, &c, v[0].1, v.skip(1), false)
        &&& #[trigger] readied(&c, d, ids_of(&c, v), v.len() as int)
    }
}
/// While a tree is built: a had no nodes, b has the root, h has the first k nodes.
#[verifier::opaque]
pub open spec fn building(a: &NodeTreeBase, b: &NodeTreeBase, h: &NodeTreeBase, v: Seq<Visit>, k: int, history: Seq<RID>) -> bool {
    let (root, w) = (v[0].1, v.skip(1));
    &&& 0 <= k <= v.len() && blank(a) && visits_from_root(a, v)
    &&& history == ids_of(h, v.take(k))
    &&& k == 0 ==> *h == *a
    &&& k > 0 ==> planted(a, b, root) && b.inv() && b.live(root) && visits_ok(b, root, w) && h.inv() && h.live(root) && attached(b, h, root, w.take(k - 1), false) && waiting(b, h, w, k - 1) && h.nodes.highest <= k
    &&& forall|i: int| 0 <= i < k ==> h.live((#[trigger] v[i]).1) && h.mem@[v[i].1].depth <= k
}
proof fn lemma_building_start(a: &NodeTreeBase, v: Seq<Visit>)
    requires blank(a), visits_from_root(a, v),
    ensures building(a, a, a, v, 0, seq![]), a.nodes.wf(),
{ reveal(building); assert(ids_of(a, v.take(0)) =~= seq![]); }
/// What the next step needs.
proof fn lemma_building_next(a: &NodeTreeBase, b: &NodeTreeBase, h: &NodeTreeBase, v: Seq<Visit>, k: int, history: Seq<RID>)
    requires building(a, b, h, v, k, history), k < v.len(),
    ensures
        v[k].0 is None <==> k == 0,
        k == 0 ==> *h == *a && blank(h) && h.nodes.wf() && h.mem@.contains_key(v[0].1) && history == Seq::<RID>::empty(),
        k > 0 ==> h.inv() && h.live(v[k].0->0) && h.mem@[v[k].0->0].depth <= k && fresh(h, v[k].1) && h.nodes.highest <= k && h.live(under(v[k], v[0].1)),
{
    reveal(building);
    let (root, w) = (v[0].1, v.skip(1));
    assert(fresh(a, v[0].1));
    if k > 0 {
        assert(w[k - 1] == v[k]); assert(fresh(h, w[k - 1].1)); assert(v[k].0 is Some);
        let z = v[k].0->0;
        assert(h.live(z) && h.mem@[z].depth <= k) by { if z != root { let j = choose|j: int| 0 <= j < k && (#[trigger] v[j]).1 == z; assert(h.live(v[j].1)); } else { assert(h.live(v[0].1)); } }
    } else { assert(history =~= Seq::<RID>::empty()); }
}
proof fn lemma_building_first(a: &NodeTreeBase, h: &NodeTreeBase, v: Seq<Visit>)
    requires building(a, a, a, v, 0, seq![]), planted(a, h, v[0].1),
    ensures building(a, h, h, v, 1, seq![0]),
{
    reveal(building);
    lemma_root_visits(a, h, v); lemma_attach_none(h, v[0].1, v.skip(1), false);
    assert(ids_of(h, v.take(1)) =~= seq![0]);
}
proof fn lemma_building_step(a: &NodeTreeBase, b: &NodeTreeBase, f: &NodeTreeBase, h: &NodeTreeBase, v: Seq<Visit>, k: int, history: Seq<RID>, r: RID)
    requires
        building(a, b, f, v, k, history), 0 < k < v.len(), h.inv(), h.live(v[k].1), h.id(v[k].1) == r,
        grown(f, h, f.id(under(v[k], v[0].1)), r, v[k].1, if v[k].2 { r } else { f.mem@[under(v[k], v[0].1)].owner->0 }),
        h.events@ == f.events@, h.mem@[v[k].1].loaded == f.mem@[v[k].1].loaded, name_given(f, f.id(under(v[k], v[0].1)), f.mem@[v[k].1].name@, h.mem@[v[k].1].name@),
    ensures building(a, b, h, v, k + 1, history.push(r)),
{
    lemma_building_next(a, b, f, v, k, history);
    reveal(building);
    let (root, w) = (v[0].1, v.skip(1)); let q = under(v[k], root);
    assert(w[k - 1] == v[k]);
    lemma_attach(b, f, h, root, w, k - 1, r, false);
    assert forall|i: int| 0 <= i < k implies h.live((#[trigger] v[i]).1) && h.mem@[v[i].1].depth <= k + 1 && h.id(v[i].1) == f.id(v[i].1) by { assert(f.live(v[i].1)); assert(f.known(f.id(v[i].1))); assert(v[i].1 != v[k].1); }
    assert(h.mem@[v[k].1].depth == f.mem@[q].depth + 1);
    assert(h.live(root)) by { assert(h.live(v[0].1)); }
    assert(ids_of(h, v.take(k + 1)) =~= history.push(r));
}
proof fn lemma_building_done(a: &NodeTreeBase, b: &NodeTreeBase, h: &NodeTreeBase, v: Seq<Visit>, history: Seq<RID>)
    requires building(a, b, h, v, v.len() as int, history),
    ensures
        planted(a, b, v[0].1), attached(b, h, v[0].1, v.skip(1), false), h.inv(), h.nodes.wf(), history == ids_of(h, v), v.len() > 0,
        forall|i: int| 0 <= i < v.len() ==> h.known(#[trigger] ids_of(h, v)[i]) && h.ptr(ids_of(h, v)[i]) == v[i].1,
        forall|i: int, j: int| 0 <= i < j < v.len() ==> (#[trigger] v[i]).1 != (#[trigger] v[j]).1,
{
    reveal(building);
    assert(v.take(v.len() as int) =~= v); assert(v.skip(1).take(v.skip(1).len() as int) =~= v.skip(1));
    assert forall|i: int| 0 <= i < v.len() implies h.known(#[trigger] ids_of(h, v)[i]) && h.ptr(ids_of(h, v)[i]) == v[i].1 by { assert(h.live(v[i].1)); }
}
impl NodeTreeBase {
//@ fn structs/node_tree_base.rs NodeTreeBase::initialize | mcall=to_string=>&:to_text
    requires
        blank(old(self)), scene.intact(old(self)), visits_from_root(old(self), scene.visits()), quiet(), scene.visits().len() < u64::MAX, scene.visits().len() < usize::MAX,
    ensures
        final(self).shape_ok(), // [C02]
        final(self).sing_ok(), // [C09]
        final(self).names_ok(), // [C03]
        started(old(self), final(self), scene.visits(), scene.saved()), // [C02,C17]
//@ hint entry
    let ghost v = scene.visits(); let ghost saved = scene.saved();
    let ghost mut a = *self; let ghost mut b = *self; let ghost mut c = *self;
//@ hint beforeloop 0
    proof { a = *self; b = *self; lemma_marked_blank(old(self), self, v, scene.saved()); lemma_building_start(self, v); assert(initialization_history@ =~= seq![]); }
//@ loop 0
    invariant AUTO
        s0@ == v, quiet(), v.len() < u64::MAX, v.len() < usize::MAX, a == b || k0 > 0,
        building(&a, &b, self, v, k0 as int, initialization_history@),
//@ hint loopstart 0
    let ghost f = *self; let ghost k = k0 as int; let ghost history = initialization_history@;
    proof { lemma_building_next(&a, &b, self, v, k, history); }
//@ hint after push 2
    proof {
        b = *self;
        assert(b.nodes.data@ =~= Map::<RID, NodePtr>::empty().insert(0, v[0].1)); assert(b.identity@ =~= Map::<RID, NodeIdentity>::empty().insert(0, NodeIdentity::NodePath)); assert(b.mem@ =~= a.mem@.insert(v[0].1, b.mem@[v[0].1]));
        assert(history =~= seq![]); assert(initialization_history@ =~= seq![0]);
        lemma_building_first(&a, self, v);
    }
//@ hint loopend 0
    proof { if k > 0 { lemma_building_step(&a, &b, &f, self, v, k, history, self.id(v[k].1)); } }
//@ hint afterloop 0
    proof {
        c = *self;
        lemma_building_done(&a, &b, self, v, initialization_history@);
        lemma_readied_none(&c, ids_of(&c, v));
    }
//@ loop 1 elem=val
    invariant AUTO
        quiet(), c.inv(), s1@ == ids_of(&c, v), s1@.len() == v.len(), self.nodes.wf(), readied(&c, self, s1@, k1 as int),
        forall|i: int| 0 <= i < s1@.len() ==> c.known(#[trigger] s1@[i]) && c.ptr(s1@[i]) == v[i].1,
        forall|i: int, j: int| 0 <= i < j < v.len() ==> (#[trigger] v[i]).1 != (#[trigger] v[j]).1,
//@ hint loopstart 1
    let ghost f = *self; let ghost k = k1 as int; let ghost x = s1@[s1@.len() - 1 - k];
    proof { lemma_readied(&c, self, s1@, k); assert(c.known(x)); assert(self.known(x)); }
//@ hint before has_just_loaded 0
    proof { lemma_same(&f, self); assert(self.live(node)); assert(v[s1@.len() - 1 - k].1 == node); assert(self.mem@[node].loaded == c.mem@[node].loaded); }
//@ hint before ready 0
    let ghost g = *self;
    proof { assert(self.live(node)); }
//@ hint after ready 0
    proof { assert(self.events@ =~= f.events@ + announce(x, c.nd(x).loaded)); lemma_readied_step(&c, &f, self, s1@, k); }
//@ hint afterloop 1
    proof { lemma_readied(&c, self, s1@, v.len() as int); assert(started(old(self), self, v, saved)); }
//@ end
}
// A new tree.
/// The nodes that were made before the tree.
pub uninterp spec fn at_hand() -> Map<NodePtr, NodeBase>;
impl Mem {
    #[verifier::external_body]
    pub fn at_hand() -> (ret: Mem) ensures ret@ == at_hand(), { unimplemented!() }
}
pub fn no_events() -> (ret: Ghost<Seq<Event>>) ensures ret@ == Seq::<Event>::empty(), { Ghost(Seq::empty()) }
pub fn no_stats() -> (ret: Ghost<Map<NodePtr, Stat>>) { Ghost(Map::empty()) }
/// HashMap::new() of a type that is inferred.
pub trait Fresh: Sized { spec fn bare(&self) -> bool; fn fresh() -> (ret: Self) ensures ret.bare(); }
impl Fresh for StrMap {
    open spec fn bare(&self) -> bool { self@ == Map::<Seq<char>, RID>::empty() }
    #[verifier::external_body]
    fn fresh() -> (ret: Self) { StrMap { m: HashMap::new() } }
}
impl<V> Fresh for HashMap<RID, V> {
    open spec fn bare(&self) -> bool { self@ == Map::<RID, V>::empty() }
    fn fresh() -> (ret: Self) { HashMap::new() }
}
impl NodeTreeBase {
//@ fn structs/node_tree_base.rs NodeTreeBase::new | subst=HashMap::new()=>Fresh::fresh() fill=NodeTreeBase{mem:Mem::at_hand(),events:no_events(),stats:no_stats()}
    ensures
        blank(&ret), ret.mem@ == at_hand(), ret.events@ == Seq::<Event>::empty(), // [C02]
        ret.status == TreeStatus::Process(TreeProcess::Running), // [C08]
        ret.logger.verbosity_lv == logger_verbosity, // [C18]
//@ end
}
/// What a tree type provides: a place for the base.
pub trait NodeTree: Sized {
    spec fn inner(&self) -> Option<NodeTreeBase>;
    fn set_base(&mut self, base: NodeTreeBase) ensures final(self).inner() == Some(base);
    fn base_mut(&mut self) -> (ret: &mut NodeTreeBase)
        requires old(self).inner() is Some,
        ensures *ret == old(self).inner()->0, final(self).inner() == Some(*final(ret));
    fn as_dyn_raw_mut(&mut self) -> (ret: TreePtr) ensures *final(self) == *old(self);
}
/// A scene from which a tree can be started.
pub open spec fn startable<I: Instanceable>(h: &NodeTreeBase, scene: I) -> bool {
    scene.intact(h) && visits_from_root(h, scene.visits()) && scene.visits().len() < u64::MAX && scene.visits().len() < usize::MAX
}
/// A tree that was just started from a scene.
pub open spec fn opened<I: Instanceable>(b: NodeTreeBase, scene: I, verbosity: LoggerVerbosity) -> bool {
    exists|a: NodeTreeBase| blank(&a) && a.mem@ == at_hand() && a.events@ == Seq::<Event>::empty() && a.status == TreeStatus::Process(TreeProcess::Running) && #[trigger] started(&a, &b, scene.visits(), scene.saved())
}
//@ fn structs/node_tree_base.rs initialize_base
    requires quiet(), forall|b: NodeTreeBase| #[trigger] blank(&b) && b.mem@ == at_hand() ==> startable(&b, scene),
    ensures final(tree).inner() matches Some(b) && opened(b, scene, verbosity) && b.shape_ok() && b.sing_ok() && b.names_ok(), // [C02,C17]
//@ end
//@ type trees/tree_simple.rs TreeSimple
impl TreeSimple {
//@ fn trees/tree_simple.rs TreeSimple::new
    requires quiet(), forall|b: NodeTreeBase| #[trigger] blank(&b) && b.mem@ == at_hand() ==> startable(&b, scene),
    ensures ret.inner() matches Some(b) && opened(b, scene, verbosity) && b.shape_ok() && b.sing_ok() && b.names_ok(), // [C02,C17]
//@ end
}
impl TreeSimple {
//@ fn trees/tree_simple.rs <NodeTree for TreeSimple>::base | as=base_of mode=plain
    requires self.base is Some,
    ensures *ret == self.base->0,
//@ end
//@ fn trees/tree_simple.rs <Deref for TreeSimple>::deref | mode=plain subst=Self::Target=>NodeTreeBase
    requires self.base is Some,
    ensures *ret == self.base->0,
//@ end
//@ fn trees/tree_simple.rs <DerefMut for TreeSimple>::deref_mut | mode=plain subst=Self::Target=>NodeTreeBase
    requires old(self).base is Some,
    ensures *ret == old(self).base->0, final(self).base == Some(*final(ret)),
//@ end
}
impl NodeTree for TreeSimple {
    open spec fn inner(&self) -> Option<NodeTreeBase> { self.base }
//@ fn trees/tree_simple.rs <NodeTree for TreeSimple>::set_base | priv mode=plain
//@ end
//@ fn trees/tree_simple.rs <NodeTree for TreeSimple>::base_mut | priv mode=plain
//@ end
    #[verifier::external_body]
    fn as_dyn_raw_mut(&mut self) -> (ret: TreePtr) { unimplemented!() }
}
