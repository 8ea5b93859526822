// Lookup by path.
//@ mode node
//@ hmethods get_node_rid get_absolute_path_tail get_absolute_path register_as_singleton
/// The first listed node with a name.
pub open spec fn find_named(h: &NodeTreeBase, s: Seq<RID>, n: Seq<char>) -> Option<RID>
    decreases s.len()
{ if s.len() == 0 { None } else if h.nd(s[0]).name@ == n { Some(s[0]) } else { find_named(h, s.drop_first(), n) } }
/// One step per segment.
pub open spec fn walk(h: &NodeTreeBase, r: RID, s: Seq<SegView>) -> Option<RID>
    decreases s.len()
{
    if s.len() == 0 { Some(r) } else { match s[0] {
        SegView::This => walk(h, r, s.drop_first()),
        SegView::Parent => match h.nd(r).parent { Some(p) => walk(h, p, s.drop_first()), None => None },
        SegView::Node(n) => match find_named(h, h.nd(r).children@, n) { Some(c) => walk(h, c, s.drop_first()), None => None },
    } }
}
/// What a path means for a caller.
pub open spec fn resolve(h: &NodeTreeBase, s: Seq<SegView>, abs: bool, caller: Option<RID>) -> Option<RID> {
    if abs { if s.len() > 0 && seg_text(s[0]) == h.nd(0).name@ { walk(h, 0, s.drop_first()) } else { None } }
    else { match caller { Some(c) if h.known(c) => walk(h, c, s), _ => None } }
}
/// The names from the root down to a node.
pub open spec fn chain(h: &NodeTreeBase, r: RID) -> Seq<SegView>
    decreases h.nd(r).depth
{
    let n = SegView::Node(h.nd(r).name@);
    match h.nd(r).parent { Some(p) if h.nd(p).depth < h.nd(r).depth => chain(h, p).push(n), _ => seq![n] }
}
/// The text that get_absolute_path builds.
pub open spec fn path_text(h: &NodeTreeBase, r: RID, rest: Seq<char>) -> Seq<char>
    decreases h.nd(r).depth
{
    let t = h.nd(r).name@ + (if rest.len() == 0 { Seq::empty() } else { "/"@ + rest });
    match h.nd(r).parent { Some(p) if h.nd(p).depth < h.nd(r).depth => path_text(h, p, t), _ => t }
}
/// The names on the way to a node can be used as path segments.
pub open spec fn plain(h: &NodeTreeBase, r: RID) -> bool { forall|i: int| 0 <= i < chain(h, r).len() ==> plain_seg(#[trigger] chain(h, r)[i]) }

proof fn lemma_find_named(h: &NodeTreeBase, s: Seq<RID>, n: Seq<char>, k: int)
    requires 0 <= k <= s.len(), forall|i: int| 0 <= i < k ==> h.nd(#[trigger] s[i]).name@ != n,
    ensures k < s.len() && h.nd(s[k]).name@ == n ==> find_named(h, s, n) == Some(s[k]), k == s.len() ==> find_named(h, s, n) is None,
    decreases s.len(),
{
    if s.len() > 0 && k > 0 {
        assert(h.nd(s[0]).name@ != n);
        assert forall|i: int| 0 <= i < k - 1 implies h.nd(#[trigger] s.drop_first()[i]).name@ != n by { assert(s.drop_first()[i] == s[i + 1]); }
        lemma_find_named(h, s.drop_first(), n, k - 1);
    }
}
/// What is found is one of the nodes.
proof fn lemma_found(h: &NodeTreeBase, s: Seq<RID>, n: Seq<char>)
    ensures find_named(h, s, n) matches Some(c) ==> s.contains(c) && h.nd(c).name@ == n,
    decreases s.len(),
{
    if s.len() > 0 { assert(s.contains(s[0])); lemma_found(h, s.drop_first(), n);
        if let Some(c) = find_named(h, s.drop_first(), n) { if s.drop_first().contains(c) { let i = choose|i: int| 0 <= i < s.drop_first().len() && s.drop_first()[i] == c; assert(s[i + 1] == c); } } }
}
proof fn lemma_walk_add(h: &NodeTreeBase, r: RID, a: Seq<SegView>, b: Seq<SegView>)
    ensures walk(h, r, a + b) == (match walk(h, r, a) { Some(y) => walk(h, y, b), None => None }),
    decreases a.len(),
{
    if a.len() == 0 { assert(a + b =~= b); }
    else {
        assert((a + b).drop_first() =~= a.drop_first() + b);
        assert((a + b)[0] == a[0]);
        match a[0] {
            SegView::This => lemma_walk_add(h, r, a.drop_first(), b),
            SegView::Parent => { if let Some(p) = h.nd(r).parent { lemma_walk_add(h, p, a.drop_first(), b); } }
            SegView::Node(n) => { if let Some(c) = find_named(h, h.nd(r).children@, n) { lemma_walk_add(h, c, a.drop_first(), b); } }
        }
    }
}
proof fn lemma_up(h: &NodeTreeBase, r: RID)
    requires h.inv(), h.known(r),
    ensures h.nd(r).parent matches Some(p) ==> h.known(p) && h.nd(p).depth < h.nd(r).depth && h.nd(p).children@.contains(r), h.nd(r).parent is None <==> r == 0, h.known(0),
{
    let m = h.links(); lemma_kids(h, r); assert(m.contains_key(r));
    if let Some(p) = h.nd(r).parent { lemma_parent(m, r); assert(m[p].kids == h.nd(p).children@); }
}
/// A child is the node that its name denotes.
proof fn lemma_by_name(h: &NodeTreeBase, p: RID, c: RID)
    requires h.inv(), h.known(p), h.nd(p).children@.contains(c),
    ensures find_named(h, h.nd(p).children@, h.nd(c).name@) == Some(c),
{
    let s = h.nd(p).children@; let k = choose|k: int| 0 <= k < s.len() && s[k] == c;
    lemma_kids(h, p); let m = h.links(); assert(m.contains_key(p) && m[p].kids == s); assert(down_ok(m, p));
    assert forall|i: int| 0 <= i < k implies h.nd(#[trigger] s[i]).name@ != h.nd(c).name@ by { assert(h.known(s[i]) && h.known(s[k]) && s[i] != s[k]); assert(h.nd(s[k]).parent == Some(p)); }
    lemma_find_named(h, s, h.nd(c).name@, k);
}
/// [C04] The names on the way to a node lead to it.
proof fn theorem_own_path(h: &NodeTreeBase, r: RID)
    requires h.inv(), h.known(r),
    ensures chain(h, r).len() > 0, chain(h, r)[0] == SegView::Node(h.nd(0).name@), walk(h, 0, chain(h, r).drop_first()) == Some(r),
    decreases h.nd(r).depth,
{
    lemma_up(h, r);
    match h.nd(r).parent {
        None => { assert(chain(h, r).drop_first() =~= Seq::empty()); }
        Some(p) => {
            theorem_own_path(h, p);
            let n = SegView::Node(h.nd(r).name@);
            lemma_walk_add(h, 0, chain(h, p).drop_first(), seq![n]);
            assert(chain(h, r).drop_first() =~= chain(h, p).drop_first() + seq![n]);
            lemma_by_name(h, p, r);
            assert(seq![n].drop_first() =~= Seq::empty());
            assert(seq![n][0] == n);
            assert(walk(h, r, seq![n].drop_first()) == Some(r));
            reveal_with_fuel(walk, 2);
            assert(walk(h, p, seq![n]) == Some(r));
        }
    }
}
proof fn lemma_path_text(h: &NodeTreeBase, r: RID, rest: Seq<char>)
    requires h.inv(), h.known(r), forall|i: int| 0 <= i < chain(h, r).len() ==> seg_text(#[trigger] chain(h, r)[i]).len() > 0,
    ensures path_text(h, r, rest) == joined(chain(h, r)) + (if rest.len() == 0 { Seq::empty() } else { "/"@ + rest }),
    decreases h.nd(r).depth,
{
    reveal_strlit("/");
    lemma_up(h, r);
    let c = chain(h, r); let n = SegView::Node(h.nd(r).name@);
    assert("/"@ =~= seq!['/']);
    let t = h.nd(r).name@ + (if rest.len() == 0 { Seq::empty() } else { "/"@ + rest });
    assert(seg_text(c.last()) == h.nd(r).name@ && c[c.len() - 1] == n);
    match h.nd(r).parent {
        None => { assert(c.drop_last() =~= Seq::empty()); assert(slashed(c.drop_last()) =~= Seq::empty()); assert(joined(c) =~= h.nd(r).name@); assert(path_text(h, r, rest) =~= joined(c) + (if rest.len() == 0 { Seq::empty() } else { "/"@ + rest })); }
        Some(p) => {
            let d = chain(h, p);
            assert(c.drop_last() =~= d);
            assert forall|i: int| 0 <= i < d.len() implies seg_text(#[trigger] d[i]).len() > 0 by { assert(d[i] == c[i]); }
            lemma_path_text(h, p, t);
            theorem_own_path(h, p);
            assert(slashed(d).len() > 0 && slashed(d).last() == '/');
            assert(slashed(d) =~= joined(d) + seq!['/']);
            assert(joined(c) =~= joined(d) + seq!['/'] + h.nd(r).name@);
            assert(path_text(h, r, rest) == path_text(h, p, t));
            assert(path_text(h, r, rest) =~= joined(c) + (if rest.len() == 0 { Seq::empty() } else { "/"@ + rest }));
        }
    }
}
#[verifier::external_body]
pub fn str_is_empty(s: &str) -> (ret: bool) ensures ret == (s@.len() == 0), { s.is_empty() }
#[verifier::external_body]
pub fn path_clone(p: &NodePath) -> (ret: NodePath) ensures ret == *p, { unimplemented!() }
#[verifier::external_body]
pub fn opt_deref(o: &Option<String>) -> (ret: Option<&str>) ensures o is Some == ret is Some, ret is Some ==> ret->0@ == o->0@, { o.as_deref() }
#[verifier::external_body]
pub fn opt_str_eq(a: &Option<&str>, b: &Option<&str>) -> (ret: bool) ensures ret == (match (*a, *b) { (Some(x), Some(y)) => x@ == y@, (None, None) => true, _ => false }), { a == b }
#[verifier::external_body]
pub fn string_into_box(s: String) -> (ret: Box<str>) ensures ret@ == s@, { s.into() }
impl TpDyn {
    /// Dereferences to the node.
    pub fn get_node_raw(&self, path: NodePath, h: &NodeTreeBase) -> (ret: Option<RID>)
        requires h.inv(), h.known(self.node),
        ensures ret == walk(h, self.node, path.segs()),
        decreases path.path@.len(), 1nat,
    { self.get(h).get_node_raw(path, h) }
}
impl NodePtr {
//@ fn structs/node_base.rs NodeBase::parent_dyn | h=ref panics=h.mem.view()[self].tree.is_none()
    requires h.mem@.contains_key(self), h.mem@[self].tree is Some ==> (h.mem@[self].parent matches Some(p) ==> h.known(p)),
    ensures
        h.inside(self), // [C22]
        match h.mem@[self].parent { // [C02,C11,C22]
        Some(p) => ret.object matches Ok(t) && t.node == p, // [C02,C11,C22]
        None => ret.object == Err::<TpDyn, NodeError>(NodeError::NoParent), // [C02,C11,C22]
    },
//@ closure 0 err: TPError -> r: NodeError
    ensures r == NodeError::TPError(err)
//@ end
//@ fn structs/node_base.rs NodeBase::get_node_raw | h=ref attr=verifier::loop_isolation(false) panics=h.mem.view()[self].tree.is_none()
    requires h.inv(), h.held(self),
    ensures
        h.inside(self), // [C22]
        ret == walk(h, h.id(self), path.segs()), // [C04]
    decreases path.path@.len(), 0nat,
//@ hint entry
    let ghost whole = path.segs(); let ghost n0 = path.path@.len(); let ghost r = h.id(self);
    proof { if h.inside(self) { lemma_up(h, r); lemma_kids(h, r); } }
//@ hint before children 0
    proof { assert(path.segs() =~= whole.drop_first()); }
//@ loop 0
    invariant AUTO
        h.inv(), h.live(self), r == h.id(self), n0 > 0, path.path@.len() == n0 - 1, path.segs() =~= whole.drop_first(), whole.len() == n0, whole[0] == SegView::Node(target_node@),
        s0@.len() == h.nd(r).children@.len(), forall|i: int| 0 <= i < s0@.len() ==> (#[trigger] s0@[i]).node == h.nd(r).children@[i] && h.known(s0@[i].node),
        forall|i: int| 0 <= i < k0 ==> h.nd(#[trigger] h.nd(r).children@[i]).name@ != target_node@,
//@ hint loopstart 0
    proof { let c = s0@[k0 as int]; assert(h.known(c.node)); lemma_find_named(h, h.nd(r).children@, target_node@, k0 as int); }
//@ hint afterloop 0
    proof { lemma_find_named(h, h.nd(r).children@, target_node@, h.nd(r).children@.len() as int); }
//@ hint before get_node_raw 1
    proof { assert(path.segs() =~= whole.drop_first()); }
//@ hint before parent_dyn 0
    proof { assert(path.segs() =~= whole.drop_first()); }
//@ end
//@ fn structs/node_base.rs NodeBase::get_absolute_path_tail | h=ref strplus mcall=to_string=>&:to_text mcall=is_empty=>&:str_is_empty panics=h.mem.view()[self].tree.is_none()
    requires h.inv(), h.held(self),
    ensures
        h.inside(self), // [C22]
        final(path)@ == path_text(h, h.id(self), old(path)@), // [C04]
    decreases h.mem@[self].depth,
//@ end
//@ fn structs/node_base.rs NodeBase::get_absolute_path | h=ref strplus mcall=to_string=>&:to_text panics=h.mem.view()[self].tree.is_none()
    requires h.inv(), h.held(self),
    ensures
        h.inside(self), // [C22]
        ret.segs() == parsed("/"@ + path_text(h, h.id(self), ""@)), ret.abs, plain(h, h.id(self)) ==> ret.segs() == chain(h, h.id(self)), // [C04]
//@ hint entry
    proof { if h.inside(self) {
        let r = h.id(self); reveal_strlit("/"); reveal_strlit(""); assert("/"@ =~= seq!['/']);
        assert(""@ =~= Seq::<char>::empty());
        theorem_own_path(h, r);
        if plain(h, r) {
            assert forall|i: int| 0 <= i < chain(h, r).len() implies seg_text(#[trigger] chain(h, r)[i]).len() > 0 by { lemma_seg_text(chain(h, r)[i]); }
            lemma_path_text(h, r, Seq::empty());
            theorem_round_trip(chain(h, r), true);
            assert("/"@ + path_text(h, r, ""@) =~= printed(chain(h, r), true));
        }
        assert(absolute("/"@ + path_text(h, r, ""@)));
    } }
//@ hint before from_str 0
    proof { assert(path@ == path_text(h, h.id(self), Seq::empty())); }
//@ end
}
pub trait NodeGetter {
    spec fn lookup(&self, tree: &NodeTreeBase, caller: Option<RID>) -> Option<RID>;
    fn get_from(&self, tree: &NodeTreeBase, caller: Option<RID>) -> (ret: Option<RID>)
        requires tree.inv(), tree.known(0),
        ensures ret == self.lookup(tree, caller); // [C04,C09]
}
pub open spec fn by_singleton(h: &NodeTreeBase, n: Seq<char>) -> Option<RID> { if h.singletons@.contains_key(n) { Some(h.singletons@[n]) } else { None } }
impl NodeGetter for NodePath {
    open spec fn lookup(&self, tree: &NodeTreeBase, caller: Option<RID>) -> Option<RID> { resolve(tree, self.segs(), self.abs, caller) }
//@ fn structs/node_path.rs <NodeGetter for NodePath>::get_from | mode=tree heap=tree priv streq=opt_str_eq mcall=clone=>&:path_clone mcall=as_deref=>&:opt_deref
//@ hint before get_node_raw 1
    proof { assert(absolute_path.segs() =~= self.segs().drop_first()); assert(self.segs()[0] == self.path@[0].view()); }
//@ end
}
impl NodeGetter for String {
    open spec fn lookup(&self, tree: &NodeTreeBase, caller: Option<RID>) -> Option<RID> { by_singleton(tree, self@) }
//@ fn structs/node_tree_base.rs <NodeGetter for String>::get_from | mode=tree heap=tree priv
//@ end
}
impl<'a> NodeGetter for &'a str {
    open spec fn lookup(&self, tree: &NodeTreeBase, caller: Option<RID>) -> Option<RID> { by_singleton(tree, (*self)@) }
//@ fn structs/node_tree_base.rs <NodeGetter for &'astr>::get_from | mode=tree heap=tree priv mcall=to_string=>&:to_text
//@ end
}
impl NodeTreeBase {
//@ fn structs/node_tree_base.rs NodeTreeBase::get_node_rid | mode=tree
    requires self.inv(), self.known(0),
    ensures ret == absolute_path.lookup(self, caller), // [C04,C09]
//@ end
}
impl TreePtr {
    pub fn get_node_rid<P: NodeGetter>(self, path: P, caller: Option<RID>, h: &NodeTreeBase) -> (ret: Option<RID>) requires h.inv(), h.known(0), ensures ret == path.lookup(h, caller), { h.get_node_rid(path, caller) }
    pub fn register_as_singleton(self, rid: RID, name: String, h: &mut NodeTreeBase) -> (ret: Option<bool>)
        requires old(h).nodes.wf(), old(h).sing_ok(),
        ensures singled(old(h), final(h), rid, name@, ret), final(h).nodes.wf(), final(h).sing_ok(),
    { h.register_as_singleton(rid, name) }
}
/// Registering a singleton, as a relation.
pub open spec fn singled(a: &NodeTreeBase, b: &NodeTreeBase, rid: RID, name: Seq<char>, ret: Option<bool>) -> bool {
    &&& b.nodes.same(&a.nodes) && b.mem@ == a.mem@ && a.side(b)
    &&& ret == (if !a.known(rid) { None } else { Some(!a.singletons@.contains_key(name)) })
    &&& ret != Some(true) ==> a.same(b)
    &&& ret == Some(true) ==> b.singletons@.contains_key(name) && b.singletons@[name] == rid
    &&& ret == Some(true) ==> forall|n: Seq<char>| n != name ==> (#[trigger] b.singletons@.contains_key(n) <==> a.singletons@.contains_key(n) && a.singletons@[n] != rid)
    &&& ret == Some(true) ==> forall|n: Seq<char>| n != name && #[trigger] b.singletons@.contains_key(n) ==> b.singletons@[n] == a.singletons@[n]
}
/// What a typed or dynamic pointer lookup yields.
pub open spec fn typed_to<T: Node>(h: &NodeTreeBase, r: RID, ret: TreeResult<Tp<T>, NodeError>) -> bool {
    match ret.object { Ok(t) => t.node == r && t.valid(h), Err(e) => !(h.known(r) && is_type::<T>(h.ptr(r))) && e == NodeError::TPError(if h.known(r) { TPError::WrongType } else { TPError::IsNull }) }
}
impl NodePtr {
//@ fn structs/node_base.rs NodeBase::get_node | h=ref mcall=into=>string_into_box panics=h.mem.view()[self].tree.is_none()
    requires h.inv(), h.held(self), h.known(0),
    ensures
        h.inside(self), // [C22]
        match path.lookup(h, Some(h.id(self))) { Some(r) => typed_to(h, r, ret), None => ret.object matches Err(e) && e is InvalidPath }, // [C04,C09,C11]
//@ closure 0 err: TPError -> r: NodeError
    ensures r == NodeError::TPError(err)
//@ end
//@ fn structs/node_base.rs NodeBase::get_node_dyn | h=ref mcall=into=>string_into_box panics=h.mem.view()[self].tree.is_none()
    requires h.inv(), h.held(self), h.known(0),
    ensures
        h.inside(self), // [C22]
        match path.lookup(h, Some(h.id(self))) { // [C04,C09,C11]
        Some(r) => match ret.object { Ok(t) => t.node == r && t.valid(h), Err(e) => !h.known(r) && e == NodeError::TPError(TPError::IsNull) }, // [C04,C09,C11]
        None => ret.object is Err, // [C04,C09,C11]
    },
//@ closure 0 err: TPError -> r: NodeError
    ensures r == NodeError::TPError(err)
//@ end
//@ fn structs/node_base.rs NodeBase::get_child | h=ref panics=h.mem.view()[self].tree.is_none()
    requires h.inv(), h.held(self),
    ensures
        h.inside(self), // [C22]
        if i < h.mem@[self].children@.len() { typed_to(h, h.mem@[self].children@[i as int], ret) } else { ret.object == Err::<Tp<T>, NodeError>(NodeError::IndexOutOfRange { index: i, children_count: h.mem@[self].children@.len() as usize }) }, // [C02,C11,C22]
//@ hint entry
    proof { if h.inside(self) { lemma_kids(h, h.id(self)); } }
//@ closure 0 err: TPError -> r: NodeError
    ensures r == NodeError::TPError(err)
//@ end
//@ fn structs/node_base.rs NodeBase::get_child_dyn | h=ref panics=h.mem.view()[self].tree.is_none()
    requires h.inv(), h.held(self),
    ensures
        h.inside(self), // [C22]
        if i < h.mem@[self].children@.len() { ret.object matches Ok(t) && t.node == h.mem@[self].children@[i as int] && t.valid(h) } else { ret.object == Err::<TpDyn, NodeError>(NodeError::IndexOutOfRange { index: i, children_count: h.mem@[self].children@.len() as usize }) }, // [C02,C11,C22]
//@ hint entry
    proof { if h.inside(self) { lemma_kids(h, h.id(self)); } }
//@ closure 0 err: TPError -> r: NodeError
    ensures r == NodeError::TPError(err)
//@ end
//@ fn structs/node_base.rs NodeBase::owner | h=ref panics=h.mem.view()[self].tree.is_none()
    requires h.mem@.contains_key(self), h.mem@[self].tree is Some ==> h.mem@[self].owner is Some,
    ensures
        h.inside(self), // [C22]
        typed_to(h, h.mem@[self].owner->0, ret), // [C02,C11,C22]
//@ closure 0 err: TPError -> r: NodeError
    ensures r == NodeError::TPError(err)
//@ end
//@ fn structs/node_base.rs NodeBase::owner_dyn | h=ref panics=h.mem.view()[self].tree.is_none()
    requires h.mem@.contains_key(self), h.mem@[self].tree is Some ==> (h.mem@[self].owner matches Some(o) && h.known(o)),
    ensures
        h.inside(self), // [C22]
        ret.node == h.mem@[self].owner->0, // [C02,C11,C22]
//@ end
//@ fn structs/node_base.rs NodeBase::parent | h=ref panics=h.mem.view()[self].tree.is_none()
    requires h.mem@.contains_key(self),
    ensures
        h.inside(self), // [C22]
        match h.mem@[self].parent { Some(p) => typed_to(h, p, ret), None => ret.object == Err::<Tp<T>, NodeError>(NodeError::NoParent) }, // [C02,C11,C22]
//@ closure 0 err: TPError -> r: NodeError
    ensures r == NodeError::TPError(err)
//@ end
//@ fn structs/node_base.rs NodeBase::this_dyn | h=ref panics=h.mem.view()[self].tree.is_none()
    requires h.inv(), h.held(self),
    ensures
        h.inside(self), // [C22]
        ret.node == h.id(self), ret.valid(h), // [C11]
//@ end
//@ fn structs/node_base.rs NodeBase::this | h=ref panics=h.mem.view()[self].tree.is_none()
    requires h.inv(), h.held(self),
    ensures
        h.inside(self), // [C22]
        ret.node == h.id(self), ret.valid(h), // [C11]
//@ end
//@ fn structs/node_base.rs NodeBase::register_as_singleton | h=mut panics=old(h).mem.view()[self].tree.is_none()
    requires old(h).inv(), old(h).held(self),
    ensures
        old(h).inside(self), // [C22]
        singled(old(h), final(h), old(h).id(self), name@, Some(ret)), // [C09]
        final(h).shape_ok(), // [C02]
        final(h).sing_ok(), // [C09]
        final(h).names_ok(), // [C03]
//@ hint exit
    proof { assert(old(h).links() =~= h.links()); assert forall|r: RID| old(h).known(r) == h.known(r) && old(h).nd(r) == h.nd(r) by {} }
//@ end
}
/// [C04] Looking up a node's own path from any node yields that node.
pub fn own_path<T: Node>(p: NodePtr, from: NodePtr, h: &NodeTreeBase) -> (ret: TreeResult<TpDyn, NodeError>)
    requires h.inv(), h.live(p), h.live(from), plain(h, h.id(p)),
    ensures ret.object matches Ok(t) && t.node == h.id(p) && t.valid(h),
{
    proof { lemma_kids(h, h.id(p)); theorem_own_path(h, h.id(p)); }
    from.get_node_dyn(p.get_absolute_path(h), h)
}
