// Scenes: instancing, building, cloning, numbering, hashing.
//@ mode ptr
//@ hmethods set_rid clone_as_instance set_name name iterate to_dyn_box mark_as_loaded update_internal
//@ hfns traverse:mut NodeScene::new_dyn:mut Self::new_dyn:mut scenes_to_vec:mut
//@ type structs/node_scene.rs NodeScene
/// What kind of node a pointer leads to: the name of its type, fixed when it is allocated.
pub uninterp spec fn type_of(p: NodePtr) -> Seq<char>;
/// p was made by cloning the node at q: it has the same type and the same field values as that had then.
pub uninterp spec fn cloned(p: NodePtr, q: NodePtr) -> bool;
/// A node in no tree.
pub open spec fn stray(n: NodeBase) -> bool { n.tree is None && n.parent is None && n.owner is None && n.children@.len() == 0 && !n.loaded }
impl NodePtr {
    /// #[derive(NodeSys)]: Box::new(self.clone()), where the base is cloned by NodeBase::clone.
    #[verifier::external_body]
    pub fn clone_as_instance(self, h: &NodeTreeBase) -> (ret: NodeBox)
        requires h.mem@.contains_key(self),
        ensures !h.mem@.contains_key(ret.p), ret.p != self, stray(ret.node@), ret.node@.name@ == h.mem@[self].name@, cloned(ret.p, self), type_of(ret.p) == type_of(self),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn name_as_type(self) -> (ret: String) ensures ret@ == type_of(self), { unimplemented!() }
}
/// The nodes below the first k children, in the order in which they are visited.
pub open spec fn beneath(s: NodeScene, k: int) -> Seq<Visit>
    decreases s, k when 0 <= k <= s.children@.len()
{ if k <= 0 { seq![] } else { let c = s.children@[k - 1]; beneath(s, k - 1) + seq![(Some(s.this), c.this, c.is_owner)] + beneath(c, c.children@.len() as int) } }
pub open spec fn all_beneath(s: NodeScene) -> Seq<Visit> { beneath(s, s.children@.len() as int) }
pub open spec fn disk_beneath(s: NodeScene, k: int) -> Seq<bool>
    decreases s, k when 0 <= k <= s.children@.len()
{ if k <= 0 { seq![] } else { let c = s.children@[k - 1]; disk_beneath(s, k - 1) + seq![c.from_disk] + disk_beneath(c, c.children@.len() as int) } }
pub open spec fn visits_of(s: NodeScene) -> Seq<Visit> { seq![(None::<NodePtr>, s.this, s.is_owner)] + all_beneath(s) }
/// The visited nodes are allocated and different.
pub open spec fn placed(h: &NodeTreeBase, v: Seq<Visit>) -> bool {
    &&& forall|i: int| 0 <= i < v.len() ==> h.mem@.contains_key((#[trigger] v[i]).1)
    &&& forall|i: int, j: int| 0 <= i < j < v.len() ==> (#[trigger] v[i]).1 != (#[trigger] v[j]).1
}
proof fn lemma_placed_cat(h: &NodeTreeBase, v: Seq<Visit>, w: Seq<Visit>)
    requires placed(h, v + w),
    ensures placed(h, v), placed(h, w), forall|p: NodePtr| came(v, p) ==> !came(w, p),
{
    let z = v + w;
    assert forall|i: int| 0 <= i < v.len() implies h.mem@.contains_key((#[trigger] v[i]).1) by { assert(z[i] == v[i]); }
    assert forall|i: int, j: int| 0 <= i < j < v.len() implies (#[trigger] v[i]).1 != (#[trigger] v[j]).1 by { assert(z[i] == v[i] && z[j] == v[j]); }
    assert forall|i: int| 0 <= i < w.len() implies h.mem@.contains_key((#[trigger] w[i]).1) by { assert(z[v.len() + i] == w[i]); }
    assert forall|i: int, j: int| 0 <= i < j < w.len() implies (#[trigger] w[i]).1 != (#[trigger] w[j]).1 by { assert(z[v.len() + i] == w[i] && z[v.len() + j] == w[j]); }
    assert forall|p: NodePtr| came(v, p) implies !came(w, p) by {
        let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i]).1 == p; assert(z[i] == v[i]);
        if came(w, p) { let j = choose|j: int| 0 <= j < w.len() && (#[trigger] w[j]).1 == p; assert(z[v.len() + j] == w[j]); }
    }
}
proof fn lemma_beneath_start(s: NodeScene, j: int, k: int)
    requires 0 <= j <= k <= s.children@.len(),
    ensures is_prefix(beneath(s, j), beneath(s, k)), disk_beneath(s, k).len() == beneath(s, k).len(),
    decreases s, k,
{
    if k > 0 {
        let c = s.children@[k - 1];
        lemma_beneath_start(c, 0, c.children@.len() as int);
        lemma_beneath_start(s, 0, k - 1);
        if j < k { lemma_beneath_start(s, j, k - 1); assert(beneath(s, k).take(beneath(s, j).len() as int) =~= beneath(s, k - 1).take(beneath(s, j).len() as int)); }
        else { assert(beneath(s, k).take(beneath(s, k).len() as int) =~= beneath(s, k)); }
    } else { assert(beneath(s, k).take(0) =~= beneath(s, j)); }
}
proof fn lemma_placed_start(h: &NodeTreeBase, s: NodeScene, k: int)
    requires placed(h, all_beneath(s)), 0 <= k <= s.children@.len(),
    ensures placed(h, beneath(s, k)),
{
    lemma_beneath_start(s, k, s.children@.len() as int);
    let (v, w) = (beneath(s, k), all_beneath(s));
    assert(w =~= v + w.skip(v.len() as int));
    lemma_placed_cat(h, v, w.skip(v.len() as int));
}
proof fn lemma_marked_cat(a: &NodeTreeBase, b: &NodeTreeBase, c: &NodeTreeBase, v: Seq<Visit>, m: Seq<bool>, w: Seq<Visit>, l: Seq<bool>)
    requires placed(a, v + w), marked(a, b, v, m), marked(b, c, w, l),
    ensures marked(a, c, v + w, m + l), placed(c, v + w),
{
    lemma_placed_cat(a, v, w);
    let (z, x) = (v + w, m + l);
    assert forall|p: NodePtr| #[trigger] a.mem@.contains_key(p) && !came(z, p) implies c.mem@[p] == a.mem@[p] by {
        assert(!came(v, p)) by { if came(v, p) { let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i]).1 == p; assert(z[i] == v[i]); } }
        assert(!came(w, p)) by { if came(w, p) { let i = choose|i: int| 0 <= i < w.len() && (#[trigger] w[i]).1 == p; assert(z[v.len() + i] == w[i]); } }
        assert(b.mem@.contains_key(p));
    }
    assert forall|i: int| 0 <= i < z.len() implies c.mem@[(#[trigger] z[i]).1] == (NodeBase { loaded: a.mem@[z[i].1].loaded || x[i], ..a.mem@[z[i].1] }) by {
        if i < v.len() {
            assert(z[i] == v[i]); assert(came(v, v[i].1)); assert(b.mem@.contains_key(v[i].1)); assert(c.mem@[v[i].1] == b.mem@[v[i].1]);
        } else {
            let j = i - v.len(); assert(z[i] == w[j]); assert(came(w, w[j].1));
            assert(a.mem@.contains_key(w[j].1)); assert(!came(v, w[j].1)); assert(b.mem@[w[j].1] == a.mem@[w[j].1]); assert(x[i] == l[j]);
        }
    }
}
/// Marking one node.
proof fn lemma_marked_one(a: &NodeTreeBase, b: &NodeTreeBase, x: Visit, d: bool)
    requires a.mem@.contains_key(x.1), a.but_mem(b), b.mem@ == (if d { a.mem@.insert(x.1, NodeBase { loaded: true, ..a.mem@[x.1] }) } else { a.mem@ }),
    ensures marked(a, b, seq![x], seq![d]),
{
    let v = seq![x]; assert(v[0] == x);
    assert forall|p: NodePtr| #[trigger] a.mem@.contains_key(p) && !came(v, p) implies b.mem@[p] == a.mem@[p] by { assert(came(v, x.1)); }
}
/// The parts of a list of visits that a step of the traversal takes.
proof fn lemma_placed_step(h: &NodeTreeBase, s: NodeScene, k: int)
    requires placed(h, all_beneath(s)), 0 <= k < s.children@.len(),
    ensures
        placed(h, beneath(s, k + 1)), placed(h, all_beneath(s.children@[k])), h.mem@.contains_key(s.children@[k].this),
        placed(h, beneath(s, k) + seq![(Some(s.this), s.children@[k].this, s.children@[k].is_owner)]),
        beneath(s, k + 1) == beneath(s, k) + seq![(Some(s.this), s.children@[k].this, s.children@[k].is_owner)] + all_beneath(s.children@[k]),
{
    let c = s.children@[k]; let x: Visit = (Some(s.this), c.this, c.is_owner);
    lemma_placed_start(h, s, k + 1);
    lemma_placed_cat(h, beneath(s, k) + seq![x], all_beneath(c));
    lemma_placed_cat(h, beneath(s, k), seq![x]);
    assert(seq![x][0] == x);
}
//@ fn structs/node_scene.rs <Instanceable for NodeScene>::iterate/traverse | h=mut record=iterator nofields
    requires placed(old(h), all_beneath(node)), parent == node.this,
    ensures
        final(iterator)@ == old(iterator)@ + all_beneath(node), // [C16]
        marked(old(h), final(h), all_beneath(node), disk_beneath(node, node.children@.len() as int)), // [C17]
    decreases node,
//@ hint entry
    let ghost (a, it0, s) = (*h, iterator@, node);
    proof { assert(it0 + beneath(s, 0) =~= it0); }
//@ loop 0 owned
    invariant AUTO
        placed(&a, all_beneath(s)), g0 == s.children@, parent == s.this, s == node,
        iterator@ == it0 + beneath(s, k0 as int),
        marked(&a, h, beneath(s, k0 as int), disk_beneath(s, k0 as int)),
//@ hint loopstart 0
    let ghost b = *h;
    proof { lemma_placed_step(&a, s, k0 as int); assert(s0@[0] == s.children@[k0 as int]); }
//@ hint before record 0
    proof {
        let x: Visit = (Some(parent), child.this, child.is_owner);
        lemma_marked_one(&b, h, x, child.from_disk);
        lemma_marked_cat(&a, &b, h, beneath(s, k0 - 1), disk_beneath(s, k0 - 1), seq![x], seq![child.from_disk]);
        lemma_placed_keep(&a, h, all_beneath(child));
    }
    let ghost c = *h;
//@ hint loopend 0
    proof {
        let ch = s.children@[k0 - 1]; let x: Visit = (Some(parent), ch.this, ch.is_owner);
        lemma_marked_cat(&a, &c, h, beneath(s, k0 - 1) + seq![x], disk_beneath(s, k0 - 1) + seq![ch.from_disk], all_beneath(ch), disk_beneath(ch, ch.children@.len() as int));
        assert(it0 + beneath(s, k0 as int) =~= (it0 + beneath(s, k0 - 1)).push(x) + all_beneath(ch));
    }
//@ end
proof fn lemma_placed_keep(a: &NodeTreeBase, b: &NodeTreeBase, v: Seq<Visit>)
    requires placed(a, v), forall|p: NodePtr| #[trigger] b.mem@.contains_key(p) <==> a.mem@.contains_key(p),
    ensures placed(b, v),
{}
impl Instanceable for NodeScene {
    open spec fn visits(&self) -> Seq<Visit> { visits_of(*self) }
    open spec fn saved(&self) -> Seq<bool> { seq![self.from_disk] + disk_beneath(*self, self.children@.len() as int) }
    open spec fn intact(&self, h: &NodeTreeBase) -> bool { placed(h, visits_of(*self)) }
//@ fn structs/node_scene.rs <Instanceable for NodeScene>::iterate | h=mut record=iterator nofields priv
//@ hint entry
    let ghost (a, it0, s) = (*h, iterator@, self);
    let ghost x: Visit = (None::<NodePtr>, self.this, self.is_owner);
    proof { lemma_placed_cat(h, seq![x], all_beneath(s)); assert(seq![x][0] == x); }
//@ hint before record 0
    proof { lemma_marked_one(&a, h, x, self.from_disk); lemma_placed_keep(&a, h, all_beneath(s)); }
    let ghost c = *h;
//@ hint exit
    proof {
        lemma_marked_cat(&a, &c, h, seq![x], seq![s.from_disk], all_beneath(s), disk_beneath(s, s.children@.len() as int));
        assert(iterator@ =~= it0 + visits_of(s));
    }
//@ end
}
/// A scene whose nodes are not in the tree can be attached anywhere: every visited node has its parent ahead of it.
proof fn lemma_parents(s: NodeScene, k: int)
    requires 0 <= k <= s.children@.len(),
    ensures forall|i: int| 0 <= i < beneath(s, k).len() ==> ((#[trigger] beneath(s, k)[i]).0 matches Some(q) && (q == s.this || exists|j: int| 0 <= j < i && (#[trigger] beneath(s, k)[j]).1 == q)),
    decreases s, k,
{
    if k > 0 {
        let c = s.children@[k - 1]; let (u, w) = (beneath(s, k - 1), all_beneath(c)); let v = beneath(s, k); let n = u.len() as int;
        lemma_parents(s, k - 1); lemma_parents(c, c.children@.len() as int);
        assert(v[n].1 == c.this);
        assert forall|i: int| 0 <= i < v.len() implies ((#[trigger] v[i]).0 matches Some(q) && (q == s.this || exists|j: int| 0 <= j < i && (#[trigger] v[j]).1 == q)) by {
            if i < n { assert(v[i] == u[i]); let q = u[i].0->0; if q != s.this { let j = choose|j: int| 0 <= j < i && (#[trigger] u[j]).1 == q; assert(v[j] == u[j]); } }
            else if i > n { let l = i - n - 1; assert(v[i] == w[l]); let q = w[l].0->0; if q != c.this { let j = choose|j: int| 0 <= j < l && (#[trigger] w[j]).1 == q; assert(v[n + 1 + j] == w[j]); } }
        }
    }
}
pub proof fn lemma_scene_fits(h: &NodeTreeBase, top: NodePtr, s: NodeScene)
    requires placed(h, visits_of(s)), forall|i: int| 0 <= i < visits_of(s).len() ==> fresh(h, (#[trigger] visits_of(s)[i]).1),
    ensures visits_ok(h, top, visits_of(s)), // [C16]
{
    let v = visits_of(s); let w = all_beneath(s);
    lemma_parents(s, s.children@.len() as int);
    assert forall|i: int| 0 <= i < v.len() implies ((#[trigger] v[i]).0 matches Some(q) ==> q == top || exists|j: int| 0 <= j < i && (#[trigger] v[j]).1 == q) by {
        if i > 0 { assert(v[i] == w[i - 1]); let q = w[i - 1].0->0; if q == s.this { assert(v[0].1 == q); } else { let j = choose|j: int| 0 <= j < i - 1 && (#[trigger] w[j]).1 == q; assert(v[j + 1] == w[j]); } }
    }
}
impl<N: Node> Instanceable for N {
    open spec fn visits(&self) -> Seq<Visit> { seq![(None::<NodePtr>, self.spot(), false)] }
    open spec fn saved(&self) -> Seq<bool> { seq![false] }
    open spec fn intact(&self, h: &NodeTreeBase) -> bool { h.mem@.contains_key(self.spot()) }
//@ fn traits/node.rs <Instanceable for N>::iterate | h=mut record=iterator nofields priv
//@ hint entry
    let ghost (it0, v) = (iterator@, self.visits());
//@ hint exit
    proof {
        assert(iterator@ =~= it0 + v); assert(v[0].1 == self.spot()); assert(came(v, self.spot()));
        assert(h.mem@ =~= old(h).mem@);
    }
//@ end
}
impl NodeScene {
//@ fn structs/node_scene.rs NodeScene::new_dyn | h=mut
    requires !old(h).mem@.contains_key(root.p),
    ensures
        ret.this == root.p && ret.children@.len() == 0 && !ret.from_disk && ret.is_owner, // [C16,C20]
        old(h).but_mem(final(h)), final(h).mem@ == old(h).mem@.insert(root.p, root.node@),
//@ end
//@ fn structs/node_scene.rs NodeScene::new | h=mut
    requires old(h).mem@.contains_key(root.spot()),
    ensures
        ret.this == root.spot() && ret.children@.len() == 0 && !ret.from_disk && ret.is_owner, // [C16]
        old(h).but_mem(final(h)), final(h).mem@ == old(h).mem@,
//@ hint exit
    proof { assert(h.mem@ =~= old(h).mem@); }
//@ end
//@ fn structs/node_scene.rs NodeScene::append
    ensures
        final(self).children@ == old(self).children@.push(NodeScene { is_owner: false, ..child }), // [C16]
        final(self).this == old(self).this && final(self).is_owner == old(self).is_owner && final(self).from_disk == old(self).from_disk, // [C16]
//@ end
//@ fn structs/node_scene.rs NodeScene::append_as_owner
    ensures
        final(self).children@ == old(self).children@.push(NodeScene { is_owner: true, ..child }), // [C16]
        final(self).this == old(self).this && final(self).is_owner == old(self).is_owner && final(self).from_disk == old(self).from_disk, // [C16]
//@ end
//@ fn structs/node_scene.rs NodeScene::children
    ensures ret@ == self.children@,
//@ end
//@ fn structs/node_scene.rs NodeScene::get_node | h=mut
    requires old(h).mem@.contains_key(self.this),
    ensures ret.p == self.this, ret.node@ == old(h).mem@[self.this],
//@ end
}
/// From a the visited nodes were numbered in order, starting after base. Nothing else differs.
pub open spec fn numbered(a: &NodeTreeBase, b: &NodeTreeBase, v: Seq<Visit>, base: int) -> bool {
    &&& a.but_mem(b)
    &&& forall|p: NodePtr| #[trigger] b.mem@.contains_key(p) <==> a.mem@.contains_key(p)
    &&& forall|p: NodePtr| #[trigger] a.mem@.contains_key(p) && !came(v, p) ==> b.mem@[p] == a.mem@[p]
    &&& forall|i: int| 0 <= i < v.len() ==> b.mem@[(#[trigger] v[i]).1] == (NodeBase { rid: (base + 1 + i) as u64, ..a.mem@[v[i].1] })
}
proof fn lemma_numbered_cat(a: &NodeTreeBase, b: &NodeTreeBase, c: &NodeTreeBase, v: Seq<Visit>, w: Seq<Visit>, base: int)
    requires placed(a, v + w), numbered(a, b, v, base), numbered(b, c, w, base + v.len()),
    ensures numbered(a, c, v + w, base), placed(c, v + w),
{
    lemma_placed_cat(a, v, w);
    let z = v + w;
    assert forall|p: NodePtr| #[trigger] a.mem@.contains_key(p) && !came(z, p) implies c.mem@[p] == a.mem@[p] by {
        assert(!came(v, p)) by { if came(v, p) { let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i]).1 == p; assert(z[i] == v[i]); } }
        assert(!came(w, p)) by { if came(w, p) { let i = choose|i: int| 0 <= i < w.len() && (#[trigger] w[i]).1 == p; assert(z[v.len() + i] == w[i]); } }
        assert(b.mem@.contains_key(p));
    }
    assert forall|i: int| 0 <= i < z.len() implies c.mem@[(#[trigger] z[i]).1] == (NodeBase { rid: (base + 1 + i) as u64, ..a.mem@[z[i].1] }) by {
        if i < v.len() {
            assert(z[i] == v[i]); assert(came(v, v[i].1)); assert(b.mem@.contains_key(v[i].1)); assert(c.mem@[v[i].1] == b.mem@[v[i].1]);
        } else {
            let j = i - v.len(); assert(z[i] == w[j]); assert(came(w, w[j].1));
            assert(a.mem@.contains_key(w[j].1)); assert(!came(v, w[j].1)); assert(b.mem@[w[j].1] == a.mem@[w[j].1]);
        }
    }
}
/// No two visited nodes have the same number.
pub proof fn lemma_numbers_differ(a: &NodeTreeBase, b: &NodeTreeBase, v: Seq<Visit>, base: int)
    requires numbered(a, b, v, base), 0 <= base, base + v.len() <= u64::MAX,
    ensures forall|i: int, j: int| 0 <= i < j < v.len() ==> b.mem@[(#[trigger] v[i]).1].rid != b.mem@[(#[trigger] v[j]).1].rid, // [C15]
{}
impl NodeScene {
//@ fn structs/node_scene.rs NodeScene::update_internal | h=mut
    requires placed(old(h), all_beneath(*self)), counter + all_beneath(*self).len() <= u64::MAX,
    ensures
        ret == counter + all_beneath(*self).len(), // [C15]
        numbered(old(h), final(h), all_beneath(*self), counter as int), // [C15]
    decreases self,
//@ hint entry
    let ghost (a, s, base) = (*h, *self, counter as int);
//@ loop 0
    invariant AUTO
        placed(&a, all_beneath(s)), s == *self, s0@ == s.children@, base + all_beneath(s).len() <= u64::MAX,
        counter == base + beneath(s, k0 as int).len(),
        numbered(&a, h, beneath(s, k0 as int), base),
//@ hint loopstart 0
    let ghost b = *h;
    proof {
        lemma_placed_step(&a, s, k0 as int);
        lemma_beneath_start(s, k0 + 1, s.children@.len() as int);
    }
//@ hint before update_internal 0
    let ghost c = *h; let ghost x: Visit = (Some(s.this), child.this, child.is_owner);
    proof {
        assert(seq![x][0] == x);
        assert(numbered(&b, &c, seq![x], base + beneath(s, k0 - 1).len())) by { assert forall|p: NodePtr| #[trigger] b.mem@.contains_key(p) && !came(seq![x], p) implies c.mem@[p] == b.mem@[p] by { assert(came(seq![x], x.1)); } }
        lemma_numbered_cat(&a, &b, &c, beneath(s, k0 - 1), seq![x], base);
        lemma_placed_keep(&a, h, all_beneath(*child));
    }
//@ hint loopend 0
    proof { lemma_numbered_cat(&a, &c, h, beneath(s, k0 - 1) + seq![x], all_beneath(*child), base); }
//@ end
}
// Cloning.
pub type Nodes = Map<NodePtr, NodeBase>;
/// r is a copy of s: the same shape, types, names and flags, every node a clone of the one at the same place.
pub open spec fn copied(s: NodeScene, r: NodeScene, a: Nodes, b: Nodes) -> bool
    decreases s
{
    &&& r.is_owner == s.is_owner && r.from_disk == s.from_disk && r.children@.len() == s.children@.len()
    &&& a.contains_key(s.this) && b.contains_key(r.this) && cloned(r.this, s.this) && type_of(r.this) == type_of(s.this)
    &&& b[r.this].name@ == a[s.this].name@ && b[r.this].rid == a[s.this].rid && stray(b[r.this])
    &&& forall|i: int| 0 <= i < s.children@.len() ==> copied(#[trigger] s.children@[i], r.children@[i], a, b)
}
/// The visited nodes are new, and nothing that was there is touched.
pub open spec fn made(a: &NodeTreeBase, b: &NodeTreeBase, v: Seq<Visit>) -> bool {
    &&& a.but_mem(b) && placed(b, v)
    &&& forall|p: NodePtr| #[trigger] a.mem@.contains_key(p) ==> b.mem@.contains_key(p) && b.mem@[p] == a.mem@[p]
    &&& forall|i: int| 0 <= i < v.len() ==> !a.mem@.contains_key((#[trigger] v[i]).1)
    &&& forall|p: NodePtr| #[trigger] b.mem@.contains_key(p) ==> a.mem@.contains_key(p) || came(v, p)
}
proof fn lemma_made_cat(a: &NodeTreeBase, b: &NodeTreeBase, c: &NodeTreeBase, v: Seq<Visit>, w: Seq<Visit>)
    requires made(a, b, v), made(b, c, w),
    ensures made(a, c, v + w),
{
    let z = v + w;
    assert forall|i: int| 0 <= i < z.len() implies !a.mem@.contains_key((#[trigger] z[i]).1) && c.mem@.contains_key(z[i].1) by { if i < v.len() { assert(z[i] == v[i]); } else { assert(z[i] == w[i - v.len()]); } }
    assert forall|i: int, j: int| 0 <= i < j < z.len() implies (#[trigger] z[i]).1 != (#[trigger] z[j]).1 by {
        if j < v.len() { assert(z[i] == v[i] && z[j] == v[j]); } else if i >= v.len() { assert(z[i] == w[i - v.len()] && z[j] == w[j - v.len()]); } else { assert(z[i] == v[i] && z[j] == w[j - v.len()]); assert(b.mem@.contains_key(v[i].1)); }
    }
    assert forall|p: NodePtr| #[trigger] c.mem@.contains_key(p) implies a.mem@.contains_key(p) || came(z, p) by {
        if b.mem@.contains_key(p) { if !a.mem@.contains_key(p) { let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i]).1 == p; assert(z[i].1 == p); } }
        else { let i = choose|i: int| 0 <= i < w.len() && (#[trigger] w[i]).1 == p; assert(z[v.len() + i].1 == p); }
    }
}
/// What was copied stays copied when nodes are added.
proof fn lemma_copied_keep(s: NodeScene, r: NodeScene, a: Nodes, b: Nodes, a2: Nodes, b2: Nodes)
    requires copied(s, r, a, b), forall|p: NodePtr| #[trigger] a.contains_key(p) ==> a2.contains_key(p) && a2[p] == a[p], forall|p: NodePtr| #[trigger] b.contains_key(p) ==> b2.contains_key(p) && b2[p] == b[p],
    ensures copied(s, r, a2, b2),
    decreases s,
{
    assert forall|i: int| 0 <= i < s.children@.len() implies copied(#[trigger] s.children@[i], r.children@[i], a2, b2) by { lemma_copied_keep(s.children@[i], r.children@[i], a, b, a2, b2); }
}
/// The nodes of a list of scenes below a node.
pub open spec fn of_list(par: NodePtr, l: Seq<NodeScene>) -> Seq<Visit>
    decreases l.len()
{ if l.len() == 0 { seq![] } else { of_list(par, l.drop_last()) + seq![(Some(par), l.last().this, l.last().is_owner)] + all_beneath(l.last()) } }
proof fn lemma_of_list(s: NodeScene, k: int)
    requires 0 <= k <= s.children@.len(),
    ensures beneath(s, k) == of_list(s.this, s.children@.take(k)),
    decreases k,
{ if k > 0 { lemma_of_list(s, k - 1); assert(s.children@.take(k).drop_last() =~= s.children@.take(k - 1)); assert(s.children@.take(k).last() == s.children@[k - 1]); } }
proof fn lemma_made_under(a: &NodeTreeBase, b: &NodeTreeBase, c: NodeScene, par: NodePtr)
    requires made(a, b, visits_of(c)),
    ensures made(a, b, seq![(Some(par), c.this, c.is_owner)] + all_beneath(c)),
{
    let v = visits_of(c); let w = seq![(Some(par), c.this, c.is_owner)] + all_beneath(c);
    assert forall|i: int| 0 <= i < w.len() implies (#[trigger] w[i]).1 == v[i].1 by {}
    assert forall|p: NodePtr| came(v, p) implies came(w, p) by { let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i]).1 == p; assert(w[i].1 == p); }
    assert forall|i: int, j: int| 0 <= i < j < w.len() implies (#[trigger] w[i]).1 != (#[trigger] w[j]).1 by { assert(v[i].1 != v[j].1); }
    assert forall|i: int| 0 <= i < w.len() implies b.mem@.contains_key((#[trigger] w[i]).1) && !a.mem@.contains_key(w[i].1) by { assert(v[i].1 == w[i].1); }
}
// What a box derefs to.
impl NodeBox {
    #[verifier::external_body]
    pub fn name(&self, h: &NodeTreeBase) -> (ret: &str) ensures ret@ == self.node@.name@, { unimplemented!() }
    #[verifier::external_body]
    pub fn rid(&self, h: &NodeTreeBase) -> (ret: RID) ensures ret == self.node@.rid, { unimplemented!() }
    pub fn set_rid(&mut self, rid: RID, h: &mut NodeTreeBase)
        requires !old(h).mem@.contains_key(old(self).p),
        ensures final(self).p == old(self).p, final(self).node@ == (NodeBase { rid, ..old(self).node@ }), old(h).but_mem(final(h)), final(h).mem@ == old(h).mem@,
    { let p = h.mem.lend(self); p.set_rid(rid, h); h.mem.take_back(self); proof { assert(h.mem@ =~= old(h).mem@); } }
    pub fn set_name(&mut self, name: &str, h: &mut NodeTreeBase)
        requires !old(h).mem@.contains_key(old(self).p), old(self).node@.tree is None,
        ensures
            final(self).p == old(self).p, final(self).node@ == (NodeBase { name: final(self).node@.name, ..old(self).node@ }), final(self).node@.name@ == name@,
            old(h).but_mem(final(h)), final(h).mem@ == old(h).mem@,
    { let p = h.mem.lend(self); p.set_name(name, h); h.mem.take_back(self); proof { assert(h.mem@ =~= old(h).mem@); } }
    #[verifier::external_body]
    pub fn clone_as_instance(&self, h: &NodeTreeBase) -> (ret: NodeBox)
        ensures !h.mem@.contains_key(ret.p), ret.p != self.p, stray(ret.node@), ret.node@.name@ == self.node@.name@, cloned(ret.p, self.p), type_of(ret.p) == type_of(self.p),
    { unimplemented!() }
}
impl Mem {
    /// The node of a box, reached through a pointer while the box is borrowed.
    #[verifier::external_body]
    pub fn lend(&mut self, b: &NodeBox) -> (ret: NodePtr)
        requires !old(self)@.contains_key(b.p),
        ensures ret == b.p, final(self)@ == old(self)@.insert(b.p, b.node@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn take_back(&mut self, b: &mut NodeBox)
        requires old(self)@.contains_key(old(b).p),
        ensures final(b).p == old(b).p, final(b).node@ == old(self)@[old(b).p], final(self)@ == old(self)@.remove(old(b).p),
    { unimplemented!() }
}
/// Vec::to_vec: clones every item, in order.
pub fn scenes_to_vec(l: &Vec<NodeScene>, h: &mut NodeTreeBase) -> (ret: Vec<NodeScene>)
    requires forall|i: int| 0 <= i < l@.len() ==> placed(old(h), visits_of(#[trigger] l@[i])),
    ensures
        ret@.len() == l@.len(), forall|par: NodePtr| made(old(h), final(h), #[trigger] of_list(par, ret@)),
        forall|i: int| 0 <= i < l@.len() ==> copied(#[trigger] l@[i], ret@[i], old(h).mem@, final(h).mem@),
    decreases l, 0nat,
{
    let ghost a = *h;
    let mut o: Vec<NodeScene> = Vec::new(); let mut k: usize = 0;
    while k < l.len()
        invariant
            k <= l@.len(), o@.len() == k, forall|i: int| 0 <= i < l@.len() ==> placed(&a, visits_of(#[trigger] l@[i])),
            forall|par: NodePtr| made(&a, h, #[trigger] of_list(par, o@)),
            forall|i: int| 0 <= i < k ==> copied(#[trigger] l@[i], o@[i], a.mem@, h.mem@),
        decreases l.len() - k,
    {
        let ghost (b, q) = (*h, o@);
        let ghost z = NodePtr { p: 0 };
        proof {
            assert(made(&a, h, of_list(z, o@)));
            let v = visits_of(l@[k as int]); assert forall|i: int| 0 <= i < v.len() implies h.mem@.contains_key((#[trigger] v[i]).1) by { assert(a.mem@.contains_key(v[i].1)); }
        }
        let c = l[k].clone(h);
        o.push(c); k = k + 1;
        proof {
            let n = l@[k - 1];
            assert forall|par: NodePtr| made(&a, h, #[trigger] of_list(par, o@)) by {
                assert(o@.drop_last() =~= q); assert(o@.last() == c);
                lemma_made_under(&b, h, c, par); assert(made(&a, &b, of_list(par, q)));
                lemma_made_cat(&a, &b, h, of_list(par, q), seq![(Some(par), c.this, c.is_owner)] + all_beneath(c));
                assert(of_list(par, q) + (seq![(Some(par), c.this, c.is_owner)] + all_beneath(c)) =~= of_list(par, o@));
            }
            assert forall|i: int| 0 <= i < k implies copied(#[trigger] l@[i], o@[i], a.mem@, h.mem@) by {
                if i < k - 1 { assert(o@[i] == q[i]); lemma_copied_keep(l@[i], q[i], a.mem@, b.mem@, a.mem@, h.mem@); }
                else { lemma_copied_back(n, c, b.mem@, a.mem@, h.mem@, &a); }
            }
        }
    }
    o
}
/// Only the nodes of the original matter.
proof fn lemma_copied_back(s: NodeScene, r: NodeScene, b: Nodes, a: Nodes, c: Nodes, h: &NodeTreeBase)
    requires copied(s, r, b, c), placed(h, visits_of(s)), h.mem@ == a, forall|p: NodePtr| #[trigger] a.contains_key(p) ==> b.contains_key(p) && b[p] == a[p],
    ensures copied(s, r, a, c),
    decreases s,
{
    assert(visits_of(s)[0].1 == s.this);
    lemma_placed_cat(h, seq![(None::<NodePtr>, s.this, s.is_owner)], all_beneath(s));
    assert forall|i: int| 0 <= i < s.children@.len() implies copied(#[trigger] s.children@[i], r.children@[i], a, c) by { lemma_placed_kid(h, s, i); lemma_copied_back(s.children@[i], r.children@[i], b, a, c, h); }
}
proof fn lemma_placed_kid(h: &NodeTreeBase, s: NodeScene, k: int)
    requires placed(h, all_beneath(s)), 0 <= k < s.children@.len(),
    ensures placed(h, visits_of(s.children@[k])),
{
    let c = s.children@[k]; let x: Visit = (Some(s.this), c.this, c.is_owner);
    lemma_placed_step(h, s, k);
    let (u, w) = (beneath(s, k), seq![x] + all_beneath(c));
    assert(beneath(s, k + 1) =~= u + w);
    lemma_placed_cat(h, u, w);
    let v = visits_of(c);
    assert forall|i: int| 0 <= i < v.len() implies (#[trigger] v[i]).1 == w[i].1 by {}
    assert forall|i: int, j: int| 0 <= i < j < v.len() implies (#[trigger] v[i]).1 != (#[trigger] v[j]).1 by { assert(w[i].1 != w[j].1); }
    assert forall|i: int| 0 <= i < v.len() implies h.mem@.contains_key((#[trigger] v[i]).1) by { assert(h.mem@.contains_key(w[i].1)); }
}
impl NodeScene {
//@ fn structs/node_scene.rs <Clone for NodeScene>::clone | h=mut mcall=to_vec=>&:scenes_to_vec
    requires placed(old(h), visits_of(*self)),
    ensures
        copied(*self, ret, old(h).mem@, final(h).mem@), // [C16]
        made(old(h), final(h), visits_of(ret)), // [C16]
    decreases self, 1nat,
//@ hint entry
    let ghost (a, s) = (*h, *self);
    proof { assert(visits_of(s)[0].1 == s.this); lemma_placed_cat(h, seq![(None::<NodePtr>, s.this, s.is_owner)], all_beneath(s)); }
//@ hint before to_vec 0
    let ghost b = *h; let ghost p = cloned_node;
    proof {
        assert(b.mem@ =~= a.mem@.insert(p, b.mem@[p]));
        assert(seq![(None::<NodePtr>, p, s.is_owner)][0].1 == p);
        assert(came(seq![(None::<NodePtr>, p, s.is_owner)], p));
        assert(made(&a, &b, seq![(None::<NodePtr>, p, s.is_owner)]));
        assert forall|i: int| 0 <= i < s.children@.len() implies placed(h, visits_of(#[trigger] s.children@[i])) by {
            lemma_placed_kid(&a, s, i); let v = visits_of(s.children@[i]);
            assert forall|j: int| 0 <= j < v.len() implies h.mem@.contains_key((#[trigger] v[j]).1) by { assert(a.mem@.contains_key(v[j].1)); }
        }
    }
//@ hint exit
    proof {
        lemma_of_list(tail__, tail__.children@.len() as int); assert(tail__.children@.take(tail__.children@.len() as int) =~= tail__.children@);
        assert(made(&b, h, of_list(p, tail__.children@)));
        lemma_made_cat(&a, &b, h, seq![(None::<NodePtr>, p, s.is_owner)], of_list(p, tail__.children@));
        assert(visits_of(tail__) =~= seq![(None::<NodePtr>, p, s.is_owner)] + of_list(p, tail__.children@));
        assert forall|i: int| 0 <= i < s.children@.len() implies copied(#[trigger] s.children@[i], tail__.children@[i], a.mem@, h.mem@) by { lemma_placed_kid(&a, s, i); lemma_copied_back(s.children@[i], tail__.children@[i], b.mem@, a.mem@, h.mem@, &a); }
        assert(h.mem@[p] == b.mem@[p]);
    }
//@ end
}
// The structural hash.
/// What a hasher is fed: strings, flags and lengths, each in a form that ends where it says.
pub ghost enum Fed { Text(Seq<char>), Flag(bool), Length(usize), Number(int, int) }
pub mod hash {
    use super::*;
    pub trait Hasher { spec fn fed(&self) -> Seq<Fed>; fn finish(&self) -> (ret: u64) ensures ret == digest(self.fed()); }
    /// What the hasher makes of what it was fed.
    pub uninterp spec fn digest(s: Seq<Fed>) -> u64;
    #[verifier::external_body]
    pub struct DefaultHasher { h: std::hash::DefaultHasher }
    impl DefaultHasher {
        pub uninterp spec fn list(&self) -> Seq<Fed>;
        #[verifier::external_body]
        pub fn new() -> (ret: Self) ensures ret.list() == Seq::<Fed>::empty(), { unimplemented!() }
    }
    impl Hasher for DefaultHasher {
        open spec fn fed(&self) -> Seq<Fed> { self.list() }
        #[verifier::external_body]
        fn finish(&self) -> (ret: u64) { unimplemented!() }
    }
    pub trait Hash { spec fn feed(&self) -> Seq<Fed>; fn hash<H: Hasher>(&self, state: &mut H) ensures final(state).fed() == old(state).fed() + self.feed(); }
    impl Hash for String { open spec fn feed(&self) -> Seq<Fed> { seq![Fed::Text(self@)] } #[verifier::external_body] fn hash<H: Hasher>(&self, state: &mut H) { unimplemented!() } }
    impl Hash for str { open spec fn feed(&self) -> Seq<Fed> { seq![Fed::Text(self@)] } #[verifier::external_body] fn hash<H: Hasher>(&self, state: &mut H) { unimplemented!() } }
    impl Hash for bool { open spec fn feed(&self) -> Seq<Fed> { seq![Fed::Flag(*self)] } #[verifier::external_body] fn hash<H: Hasher>(&self, state: &mut H) { unimplemented!() } }
    impl Hash for usize { open spec fn feed(&self) -> Seq<Fed> { seq![Fed::Length(*self)] } #[verifier::external_body] fn hash<H: Hasher>(&self, state: &mut H) { unimplemented!() } }
    // What the code does not feed: told from the rest.
    impl Hash for u8 { open spec fn feed(&self) -> Seq<Fed> { seq![Fed::Number(0, *self as int)] } #[verifier::external_body] fn hash<H: Hasher>(&self, state: &mut H) { unimplemented!() } }
    impl Hash for u16 { open spec fn feed(&self) -> Seq<Fed> { seq![Fed::Number(1, *self as int)] } #[verifier::external_body] fn hash<H: Hasher>(&self, state: &mut H) { unimplemented!() } }
    impl Hash for u32 { open spec fn feed(&self) -> Seq<Fed> { seq![Fed::Number(2, *self as int)] } #[verifier::external_body] fn hash<H: Hasher>(&self, state: &mut H) { unimplemented!() } }
    impl Hash for u64 { open spec fn feed(&self) -> Seq<Fed> { seq![Fed::Number(3, *self as int)] } #[verifier::external_body] fn hash<H: Hasher>(&self, state: &mut H) { unimplemented!() } }
    impl Hash for u128 { open spec fn feed(&self) -> Seq<Fed> { seq![Fed::Number(4, *self as int)] } #[verifier::external_body] fn hash<H: Hasher>(&self, state: &mut H) { unimplemented!() } }
    impl Hash for i8 { open spec fn feed(&self) -> Seq<Fed> { seq![Fed::Number(5, *self as int)] } #[verifier::external_body] fn hash<H: Hasher>(&self, state: &mut H) { unimplemented!() } }
    impl Hash for i16 { open spec fn feed(&self) -> Seq<Fed> { seq![Fed::Number(6, *self as int)] } #[verifier::external_body] fn hash<H: Hasher>(&self, state: &mut H) { unimplemented!() } }
    impl Hash for i32 { open spec fn feed(&self) -> Seq<Fed> { seq![Fed::Number(7, *self as int)] } #[verifier::external_body] fn hash<H: Hasher>(&self, state: &mut H) { unimplemented!() } }
    impl Hash for i64 { open spec fn feed(&self) -> Seq<Fed> { seq![Fed::Number(8, *self as int)] } #[verifier::external_body] fn hash<H: Hasher>(&self, state: &mut H) { unimplemented!() } }
    impl Hash for i128 { open spec fn feed(&self) -> Seq<Fed> { seq![Fed::Number(9, *self as int)] } #[verifier::external_body] fn hash<H: Hasher>(&self, state: &mut H) { unimplemented!() } }
    impl Hash for isize { open spec fn feed(&self) -> Seq<Fed> { seq![Fed::Number(10, *self as int)] } #[verifier::external_body] fn hash<H: Hasher>(&self, state: &mut H) { unimplemented!() } }
    impl Hash for char { open spec fn feed(&self) -> Seq<Fed> { seq![Fed::Number(11, *self as int)] } #[verifier::external_body] fn hash<H: Hasher>(&self, state: &mut H) { unimplemented!() } }
}
pub use hash::*;
/// The same shape, child order, types and ownership flags.
pub open spec fn alike(s: NodeScene, t: NodeScene) -> bool
    decreases s
{ type_of(s.this) == type_of(t.this) && s.is_owner == t.is_owner && s.children@.len() == t.children@.len() && forall|i: int| 0 <= i < s.children@.len() ==> alike(#[trigger] s.children@[i], t.children@[i]) }
/// What a scene feeds to a hasher.
pub open spec fn feed_kids(s: NodeScene, k: int) -> Seq<Fed>
    decreases s, k when 0 <= k <= s.children@.len()
{ if k <= 0 { seq![] } else { let c = s.children@[k - 1]; feed_kids(s, k - 1) + feed_head(c) + feed_kids(c, c.children@.len() as int) } }
pub open spec fn feed_head(s: NodeScene) -> Seq<Fed> { seq![Fed::Text(type_of(s.this)), Fed::Flag(s.is_owner), Fed::Length(s.children.len())] }
pub open spec fn feed_of(s: NodeScene) -> Seq<Fed> { feed_head(s) + feed_kids(s, s.children@.len() as int) }
proof fn lemma_alike_kids(s: NodeScene, t: NodeScene, k: int)
    requires alike(s, t), 0 <= k <= s.children@.len(),
    ensures feed_kids(s, k) == feed_kids(t, k),
    decreases s, k,
{
    if k > 0 { lemma_alike_kids(s, t, k - 1); let (c, d) = (s.children@[k - 1], t.children@[k - 1]); assert(alike(c, d)); lemma_alike_kids(c, d, c.children@.len() as int); }
}
/// Scenes that are alike have the same hash, whatever else differs.
pub proof fn lemma_alike_hash(s: NodeScene, t: NodeScene)
    requires alike(s, t),
    ensures feed_of(s) == feed_of(t), digest(feed_of(s)) == digest(feed_of(t)), // [C19]
{ lemma_alike_kids(s, t, s.children@.len() as int); }
/// Two equal lists that start with the feeds of two scenes.
proof fn lemma_feed_parts(s: NodeScene, t: NodeScene, x: Seq<Fed>, y: Seq<Fed>)
    requires feed_of(s) + x == feed_of(t) + y,
    ensures alike(s, t), x == y,
    decreases s,
{
    let (p, q) = (feed_of(s) + x, feed_of(t) + y);
    assert(p[0] == Fed::Text(type_of(s.this)) && p[1] == Fed::Flag(s.is_owner) && p[2] == Fed::Length(s.children.len()));
    assert(q[0] == Fed::Text(type_of(t.this)) && q[1] == Fed::Flag(t.is_owner) && q[2] == Fed::Length(t.children.len()));
    let n = s.children@.len() as int;
    assert(p.skip(3) =~= feed_kids(s, n) + x); assert(q.skip(3) =~= feed_kids(t, n) + y);
    lemma_feed_from(s, 0); lemma_feed_from(t, 0); let n2 = t.children@.len() as int;
    assert(feed_from(s, 0) =~= feed_kids(s, n)); assert(feed_from(t, 0) =~= feed_kids(t, n2));
    lemma_feed_kids(s, t, 0, x, y);
}
spec fn feed_from(s: NodeScene, k: int) -> Seq<Fed>
    decreases s.children@.len() - k
{ if k < 0 || k >= s.children@.len() { seq![] } else { feed_of(s.children@[k]) + feed_from(s, k + 1) } }
proof fn lemma_feed_from(s: NodeScene, k: int)
    requires 0 <= k <= s.children@.len(),
    ensures feed_kids(s, k) + feed_from(s, k) == feed_kids(s, s.children@.len() as int),
    decreases s.children@.len() - k,
{
    if k < s.children@.len() { lemma_feed_from(s, k + 1); assert(feed_kids(s, k) + feed_from(s, k) =~= feed_kids(s, k + 1) + feed_from(s, k + 1)); }
    else { assert(feed_kids(s, k) + feed_from(s, k) =~= feed_kids(s, k)); }
}
proof fn lemma_feed_kids(s: NodeScene, t: NodeScene, k: int, x: Seq<Fed>, y: Seq<Fed>)
    requires s.children@.len() == t.children@.len(), 0 <= k <= s.children@.len(), feed_from(s, k) + x == feed_from(t, k) + y,
    ensures x == y, forall|i: int| k <= i < s.children@.len() ==> alike(#[trigger] s.children@[i], t.children@[i]),
    decreases s, s.children@.len() - k,
{
    if k < s.children@.len() {
        let (c, d) = (s.children@[k], t.children@[k]);
        assert(feed_from(s, k) + x =~= feed_of(c) + (feed_from(s, k + 1) + x));
        assert(feed_from(t, k) + y =~= feed_of(d) + (feed_from(t, k + 1) + y));
        lemma_feed_parts(c, d, feed_from(s, k + 1) + x, feed_from(t, k + 1) + y);
        lemma_feed_kids(s, t, k + 1, x, y);
    } else { assert(feed_from(s, k) + x =~= x); assert(feed_from(t, k) + y =~= y); }
}
/// Scenes that are not alike feed different data.
pub proof fn lemma_feed_alike(s: NodeScene, t: NodeScene)
    requires feed_of(s) == feed_of(t),
    ensures alike(s, t), // [C19]
{ assert(feed_of(s) + Seq::<Fed>::empty() =~= feed_of(t) + Seq::<Fed>::empty()); lemma_feed_parts(s, t, Seq::<Fed>::empty(), Seq::<Fed>::empty()); }
impl NodeScene {
//@ fn structs/node_scene.rs NodeScene::internal_structural_hash
    ensures final(state).fed() == old(state).fed() + feed_of(*self), // [C19]
    decreases self, 0nat,
//@ hint entry
    let ghost f0 = state.fed(); let ghost s = *self;
//@ loop 0
    invariant AUTO
        s == *self, s0@ == s.children@,
        state.fed() == f0 + feed_head(s) + feed_kids(s, k0 as int),
//@ hint loopend 0
    proof { assert(state.fed() =~= f0 + feed_head(s) + feed_kids(s, k0 as int)); }
//@ hint beforeloop 0
    proof { assert(state.fed() =~= f0 + feed_head(s) + feed_kids(s, 0)); }
//@ hint exit
    proof { assert(state.fed() =~= f0 + feed_of(s)); }
//@ end
//@ fn structs/node_scene.rs <Hash for NodeScene>::hash
    ensures final(state).fed() == old(state).fed() + feed_of(*self), // [C19]
    decreases self, 1nat,
//@ end
//@ fn structs/node_scene.rs NodeScene::structural_hash
    ensures ret == digest(feed_of(*self)), // [C19]
//@ hint before finish 0
    proof { assert(hasher.fed() =~= feed_of(*self)); }
//@ end
}

// Saving a branch.
//@ hmethods save_as_branch save_as_branch_tail clone_as_instance get_node is_owner
/// s mirrors the branch of r: one node per node, in the same shape and order, clones with the names, types and ownership of the live ones.
pub open spec fn mirrors(a: &NodeTreeBase, m: Nodes, r: RID, s: NodeScene, owner: bool) -> bool
    decreases s
{
    &&& s.is_owner == owner && !s.from_disk && s.children@.len() == a.nd(r).children@.len()
    &&& m.contains_key(s.this) && stray(m[s.this]) && m[s.this].name@ == a.nd(r).name@ && cloned(s.this, a.ptr(r)) && type_of(s.this) == type_of(a.ptr(r))
    &&& forall|i: int| 0 <= i < s.children@.len() ==> mirrors(a, m, a.nd(r).children@[i], #[trigger] s.children@[i], owns(a, a.nd(r).children@[i]))
}
pub open spec fn owns(a: &NodeTreeBase, r: RID) -> bool { a.nd(r).owner == Some(r) }
proof fn lemma_mirrors_keep(a: &NodeTreeBase, m: Nodes, m2: Nodes, r: RID, s: NodeScene, owner: bool)
    requires mirrors(a, m, r, s, owner), forall|p: NodePtr| #[trigger] m.contains_key(p) ==> m2.contains_key(p) && m2[p] == m[p],
    ensures mirrors(a, m2, r, s, owner),
    decreases s,
{ assert forall|i: int| 0 <= i < s.children@.len() implies mirrors(a, m2, a.nd(r).children@[i], #[trigger] s.children@[i], owns(a, a.nd(r).children@[i])) by { lemma_mirrors_keep(a, m, m2, a.nd(r).children@[i], s.children@[i], owns(a, a.nd(r).children@[i])); } }
/// The tree as it was, with more nodes outside of it.
pub open spec fn untouched(a: &NodeTreeBase, b: &NodeTreeBase) -> bool { a.but_mem(b) && forall|p: NodePtr| #[trigger] a.mem@.contains_key(p) ==> b.mem@.contains_key(p) && b.mem@[p] == a.mem@[p] }
proof fn lemma_untouched(a: &NodeTreeBase, b: &NodeTreeBase)
    requires untouched(a, b), a.inv(),
    ensures b.inv(), b.links() == a.links(), forall|r: RID| #[trigger] a.known(r) ==> b.known(r) && b.ptr(r) == a.ptr(r) && b.nd(r) == a.nd(r), forall|r: RID| #[trigger] b.known(r) ==> a.known(r),
{
    assert forall|r: RID| #[trigger] a.known(r) implies b.nd(r) == a.nd(r) by { assert(a.mem@.contains_key(a.ptr(r))); }
    assert(forall|r: RID| a.known(r) == b.known(r));
    assert(b.links() =~= a.links()) by { assert forall|r: RID| #[trigger] b.links().contains_key(r) implies b.links()[r] == a.links()[r] by { assert(a.known(r)); assert(b.nd(r) == a.nd(r)); } }
    assert forall|r: RID| #[trigger] b.known(r) implies b.mem@.contains_key(b.ptr(r)) && b.nd(r).rid == r && b.nd(r).tree is Some by { assert(a.known(r)); }
}
/// The same for two trees that know the same.
proof fn lemma_mirrors_of(a: &NodeTreeBase, b: &NodeTreeBase, m: Nodes, r: RID, s: NodeScene, owner: bool)
    requires mirrors(b, m, r, s, owner), a.inv(), a.known(r), untouched(a, b),
    ensures mirrors(a, m, r, s, owner),
    decreases s,
{
    lemma_untouched(a, b); lemma_kids(a, r);
    assert forall|i: int| 0 <= i < s.children@.len() implies mirrors(a, m, a.nd(r).children@[i], #[trigger] s.children@[i], owns(a, a.nd(r).children@[i])) by { let c = a.nd(r).children@[i]; assert(a.known(c)); assert(mirrors(b, m, c, s.children@[i], owns(b, c))); lemma_mirrors_of(a, b, m, c, s.children@[i], owns(a, c)); }
}
proof fn lemma_mirrors_flag(a: &NodeTreeBase, m: Nodes, r: RID, s: NodeScene, t: NodeScene, owner: bool)
    requires mirrors(a, m, r, s, s.is_owner), t == (NodeScene { is_owner: owner, ..s }),
    ensures mirrors(a, m, r, t, owner),
{ assert(t.children == s.children); }
impl NodePtr {
//@ mode node
//@ fn structs/node_base.rs NodeBase::save_as_branch_tail | h=mut
    requires old(h).inv(), old(h).live(self),
    ensures
        mirrors(old(h), final(h).mem@, old(h).id(self), ret, true), // [C20]
        untouched(old(h), final(h)), // [C20]
        made(old(h), final(h), visits_of(ret)), // [C20]
    decreases MAXD - old(h).mem@[self].depth,
//@ hint entry
    let ghost a = *h; let ghost r = a.id(self);
    proof { lemma_kids(h, r); }
//@ loop 0 src=&rids_clone
    invariant AUTO
        a == *old(h), a.inv(), a.live(self), r == a.id(self), untouched(&a, h), h.mem@.contains_key(self), h.mem@[self] == a.mem@[self], s0@ == a.nd(r).children@,
        scene.is_owner, !scene.from_disk, scene.children@.len() == k0, made(&a, h, visits_of(scene)),
        h.mem@.contains_key(scene.this), stray(h.mem@[scene.this]), h.mem@[scene.this].name@ == a.nd(r).name@, cloned(scene.this, a.ptr(r)), type_of(scene.this) == type_of(a.ptr(r)),
        forall|i: int| 0 <= i < k0 ==> mirrors(&a, h.mem@, a.nd(r).children@[i], #[trigger] scene.children@[i], owns(&a, a.nd(r).children@[i])),
//@ hint beforeloop 0
    proof {
        assert(visits_of(scene) =~= seq![(None::<NodePtr>, scene.this, true)]);
        assert(seq![(None::<NodePtr>, scene.this, true)][0].1 == scene.this);
        assert(came(visits_of(scene), scene.this)) by { assert(visits_of(scene)[0].1 == scene.this); }
    }
//@ hint loopstart 0
    let ghost b = *h; let ghost before = scene;
    proof {
        let c = s0@[k0 as int];
        lemma_untouched(&a, &b); lemma_kids(&a, r);
        assert(a.known(c)); assert(b.live(b.ptr(c)));
        assert(child_ok(a.links(), r, a.links()[r].kids[k0 as int])) by { assert(a.links().contains_key(r)); assert(down_ok(a.links(), r)); }
        assert(a.links()[c].depth == a.nd(c).depth && a.links()[r].depth == a.nd(r).depth);
    }
//@ hint loopend 0
    proof {
        let id = a.nd(r).children@[k0 - 1]; let x = scene.children@.last(); let sub = NodeScene { is_owner: true, ..x };
        assert(scene.children@ == before.children@.push(x));
        lemma_mirrors_of(&a, &b, h.mem@, id, sub, true);
        lemma_mirrors_flag(&a, h.mem@, id, sub, x, owns(&a, id));
        lemma_made_flag(&b, h, sub, x, scene.this);
        lemma_made_cat(&a, &b, h, visits_of(before), seq![(Some(scene.this), x.this, x.is_owner)] + all_beneath(x));
        lemma_scene_push(before, x, scene);
        assert forall|i: int| 0 <= i < k0 implies mirrors(&a, h.mem@, a.nd(r).children@[i], #[trigger] scene.children@[i], owns(&a, a.nd(r).children@[i])) by {
            if i < k0 - 1 { assert(scene.children@[i] == before.children@[i]); lemma_mirrors_keep(&a, b.mem@, h.mem@, a.nd(r).children@[i], before.children@[i], owns(&a, a.nd(r).children@[i])); }
        }
    }
//@ end
//@ fn structs/node_base.rs NodeBase::save_as_branch | h=mut panics=old(h).mem.view()[self].tree.is_none()
    requires old(h).inv(), old(h).held(self),
    ensures
        old(h).inside(self), // [C22]
        mirrors(old(h), final(h).mem@, old(h).id(self), ret, true), // [C20]
        untouched(old(h), final(h)), // [C20]
        made(old(h), final(h), visits_of(ret)), // [C20]
//@ end
}
/// The ownership flag of a scene has no part in what is below it.
proof fn lemma_made_flag(a: &NodeTreeBase, b: &NodeTreeBase, c: NodeScene, d: NodeScene, par: NodePtr)
    requires made(a, b, visits_of(c)), d == (NodeScene { is_owner: d.is_owner, ..c }),
    ensures made(a, b, seq![(Some(par), d.this, d.is_owner)] + all_beneath(d)),
{
    lemma_of_list(c, c.children@.len() as int); lemma_of_list(d, d.children@.len() as int);
    let v = visits_of(c); let w = visits_of(d);
    assert forall|i: int| 0 <= i < w.len() implies (#[trigger] w[i]).1 == v[i].1 by {}
    assert forall|p: NodePtr| came(v, p) implies came(w, p) by { let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i]).1 == p; assert(w[i].1 == p); }
    assert forall|i: int, j: int| 0 <= i < j < w.len() implies (#[trigger] w[i]).1 != (#[trigger] w[j]).1 by { assert(v[i].1 != v[j].1); }
    assert forall|i: int| 0 <= i < w.len() implies b.mem@.contains_key((#[trigger] w[i]).1) && !a.mem@.contains_key(w[i].1) by { assert(v[i].1 == w[i].1); }
    lemma_made_under(a, b, d, par);
}
proof fn lemma_scene_push(s: NodeScene, c: NodeScene, t: NodeScene)
    requires t.this == s.this, t.is_owner == s.is_owner, t.children@ == s.children@.push(c),
    ensures visits_of(t) == visits_of(s) + (seq![(Some(s.this), c.this, c.is_owner)] + all_beneath(c)),
{
    let n = s.children@.len() as int;
    lemma_of_list(s, n); lemma_of_list(t, n); assert(t.children@.take(n) =~= s.children@.take(n)); assert(t.children@[n] == c);
    assert(visits_of(t) =~= visits_of(s) + (seq![(Some(s.this), c.this, c.is_owner)] + all_beneath(c)));
}
// What #[derive(Clone)] on a node class makes of its base.
#[verifier::external_body]
pub fn status_normal() -> (ret: StatusCell) { unimplemented!() }
#[verifier::external_body]
pub fn rid_default() -> (ret: RID) ensures ret == 0, { 0 }
impl NodeBase {
//@ mode ptr
//@ fn structs/node_base.rs NodeBase::new | subst=Rc::new(Mutex::new(NodeStatus::Normal))=>status_normal() subst=RID::default()=>rid_default()
    ensures stray(ret), ret.name == name, ret.rid == 0, ret.depth == 0, // [C16,C20]
//@ end
//@ fn structs/node_base.rs <Clone for NodeBase>::clone | nofields mcall=clone=>&:to_text
    ensures stray(ret), ret.name@ == self.name@, // [C16,C20]
//@ end
}
