// Attaching whole scenes.
/// What instancing a scene visits: the parent in the scene, the node, whether it is an owner.
pub type Visit = (Option<NodePtr>, NodePtr, bool);
/// The node under which a visited node goes: nodes without a parent in the scene go under top.
pub open spec fn under(x: Visit, top: NodePtr) -> NodePtr { match x.0 { Some(q) => q, None => top } }
/// The nodes that go under q, in order.
pub open spec fn kids_of(v: Seq<Visit>, top: NodePtr, q: NodePtr) -> Seq<NodePtr>
    decreases v.len()
{ if v.len() == 0 { seq![] } else { let r = kids_of(v.drop_last(), top, q); if under(v.last(), top) == q { r.push(v.last().1) } else { r } } }
pub open spec fn ids(h: &NodeTreeBase, s: Seq<NodePtr>) -> Seq<RID> { s.map_values(|q: NodePtr| h.id(q)) }
/// The calls that the new nodes get.
pub open spec fn announced(h: &NodeTreeBase, a: &NodeTreeBase, v: Seq<Visit>) -> Seq<Event>
    decreases v.len()
{ if v.len() == 0 { seq![] } else { announced(h, a, v.drop_last()) + announce(h.id(v.last().1), a.mem@[v.last().1].loaded) } }
/// Visits that can go under a node: new and different nodes, each under one that was there or came before it.
pub open spec fn visits_ok(h: &NodeTreeBase, top: NodePtr, v: Seq<Visit>) -> bool {
    &&& forall|i: int| 0 <= i < v.len() ==> fresh(h, (#[trigger] v[i]).1)
    &&& forall|i: int, j: int| 0 <= i < j < v.len() ==> (#[trigger] v[i]).1 != (#[trigger] v[j]).1
    &&& forall|i: int| 0 <= i < v.len() ==> ((#[trigger] v[i]).0 matches Some(q) ==> q == top || exists|j: int| 0 <= j < i && (#[trigger] v[j]).1 == q)
}
pub open spec fn came(v: Seq<Visit>, q: NodePtr) -> bool { exists|j: int| 0 <= j < v.len() && (#[trigger] v[j]).1 == q }
/// A child of the same node had this name when the node of visit i came.
pub open spec fn used_before(a: &NodeTreeBase, b: &NodeTreeBase, top: NodePtr, v: Seq<Visit>, i: int, n: Seq<char>) -> bool {
    ||| a.live(under(v[i], top)) && used_under(a, a.id(under(v[i], top)), n)
    ||| exists|j: int| 0 <= j < i && under(#[trigger] v[j], top) == under(v[i], top) && b.mem@[v[j].1].name@ == n
}
/// The name of the node of visit i: its own unless that was used.
pub open spec fn named_well(a: &NodeTreeBase, b: &NodeTreeBase, top: NodePtr, v: Seq<Visit>, i: int) -> bool {
    let (want, new) = (a.mem@[v[i].1].name@, b.mem@[v[i].1].name@);
    &&& !used_before(a, b, top, v, i, want) ==> new == want
    &&& used_before(a, b, top, v, i, want) ==> exists|n: usize| new == spec_stem(want) + #[trigger] dec(n)
}
/// b is a with the visited nodes attached, nothing else differs.
pub open spec fn attached(a: &NodeTreeBase, b: &NodeTreeBase, top: NodePtr, v: Seq<Visit>, announce: bool) -> bool {
    &&& b.singletons@ == a.singletons@
    // The nodes that were there: only their lists of children grow.
    &&& forall|q: NodePtr| #[trigger] a.live(q) ==> b.live(q) && b.mem@[q] == (NodeBase { children: b.mem@[q].children, ..a.mem@[q] }) && b.mem@[q].children@ == a.mem@[q].children@ + ids(b, kids_of(v, top, q))
    &&& forall|r: RID| #[trigger] a.known(r) ==> b.identity@[r] == a.identity@[r]
    // The new nodes.
    &&& forall|i: int| 0 <= i < v.len() ==> {
        let p = (#[trigger] v[i]).1;
        &&& b.live(p) && !a.known(b.id(p)) && b.identity@[b.id(p)] is NodePath
        &&& b.mem@[p].parent == Some(b.id(under(v[i], top)))
        &&& b.mem@[p].owner == (if v[i].2 { Some(b.id(p)) } else { b.mem@[under(v[i], top)].owner })
        &&& b.mem@[p].children@ == ids(b, kids_of(v, top, p))
        &&& b.mem@[p].loaded == (!announce && a.mem@[p].loaded)
        &&& named_well(a, b, top, v, i)
    }
    // No others.
    &&& forall|r: RID| #[trigger] b.known(r) ==> a.known(r) || came(v, b.ptr(r))
    &&& b.events@ == (if announce { a.events@ + announced(b, a, v) } else { a.events@ })
}
proof fn lemma_kids_of(v: Seq<Visit>, top: NodePtr, q: NodePtr)
    ensures forall|i: int| 0 <= i < kids_of(v, top, q).len() ==> came(v, #[trigger] kids_of(v, top, q)[i]),
    decreases v.len(),
{
    if v.len() > 0 {
        lemma_kids_of(v.drop_last(), top, q);
        let r = kids_of(v.drop_last(), top, q); let s = kids_of(v, top, q);
        assert forall|i: int| 0 <= i < s.len() implies came(v, #[trigger] s[i]) by {
            if i < r.len() { assert(came(v.drop_last(), r[i])); let j = choose|j: int| 0 <= j < v.len() - 1 && (#[trigger] v.drop_last()[j]).1 == r[i]; assert(v[j].1 == s[i]); }
            else { assert(v[v.len() - 1].1 == s[i]); }
        }
    }
}
proof fn lemma_announced(h: &NodeTreeBase, g: &NodeTreeBase, a: &NodeTreeBase, v: Seq<Visit>)
    requires forall|i: int| 0 <= i < v.len() ==> h.id((#[trigger] v[i]).1) == g.id(v[i].1),
    ensures announced(h, a, v) == announced(g, a, v),
    decreases v.len(),
{ if v.len() > 0 { assert(v[v.len() - 1] == v.last()); assert forall|i: int| 0 <= i < v.drop_last().len() implies h.id((#[trigger] v.drop_last()[i]).1) == g.id(v.drop_last()[i].1) by { assert(v[i] == v.drop_last()[i]); } lemma_announced(h, g, a, v.drop_last()); } }
/// What is still to be visited is as it was.
pub open spec fn waiting(a: &NodeTreeBase, h: &NodeTreeBase, v: Seq<Visit>, k: int) -> bool { forall|i: int| k <= i < v.len() ==> fresh(h, (#[trigger] v[i]).1) && h.mem@[v[i].1] == a.mem@[v[i].1] }
proof fn lemma_attach_none(a: &NodeTreeBase, top: NodePtr, v: Seq<Visit>, announce: bool)
    requires a.inv(), visits_ok(a, top, v),
    ensures attached(a, a, top, v.take(0), announce), waiting(a, a, v, 0),
{
    assert forall|q: NodePtr| #[trigger] a.live(q) implies a.mem@[q].children@ == a.mem@[q].children@ + ids(a, kids_of(v.take(0), top, q)) by { assert(a.mem@[q].children@ + ids(a, kids_of(v.take(0), top, q)) =~= a.mem@[q].children@); }
    assert(a.events@ + announced(a, a, v.take(0)) =~= a.events@);
}
proof fn lemma_used_before(a: &NodeTreeBase, h: &NodeTreeBase, g: &NodeTreeBase, top: NodePtr, v: Seq<Visit>, k: int, i: int)
    requires
        a.inv(), h.inv(), a.live(top), visits_ok(a, top, v), 0 <= i <= k < v.len(), attached(a, h, top, v.take(k), false) || attached(a, h, top, v.take(k), true), h.live(under(v[k], top)),
        forall|x: NodePtr| #[trigger] h.live(x) ==> g.mem@[x].name@ == h.mem@[x].name@,
    ensures
        i < k ==> forall|n: Seq<char>| #[trigger] used_before(a, g, top, v.take(k + 1), i, n) <==> used_before(a, h, top, v.take(k), i, n),
        i == k ==> forall|n: Seq<char>| #[trigger] used_before(a, g, top, v.take(k + 1), i, n) <==> used_under(h, h.id(under(v[k], top)), n),
{
    let (s, t) = (v.take(k), v.take(k + 1)); let q = under(v[k], top);
    assert(t[i] == v[i]);
    assert forall|j: int| 0 <= j < k implies #[trigger] s[j] == v[j] && t[j] == v[j] && h.live(s[j].1) && g.mem@[s[j].1].name@ == h.mem@[s[j].1].name@ && h.live(under(s[j], top)) by {
        if let Some(z) = s[j].0 { if z != top { let l = choose|l: int| 0 <= l < j && (#[trigger] v[l]).1 == z; assert(s[l].1 == z); } }
    }
    if i < k {
        assert forall|n: Seq<char>| #[trigger] used_before(a, g, top, t, i, n) <==> used_before(a, h, top, s, i, n) by {
            if exists|j: int| 0 <= j < i && under(#[trigger] t[j], top) == under(t[i], top) && g.mem@[t[j].1].name@ == n { let j = choose|j: int| 0 <= j < i && under(#[trigger] t[j], top) == under(t[i], top) && g.mem@[t[j].1].name@ == n; assert(under(s[j], top) == under(s[i], top)); }
            if exists|j: int| 0 <= j < i && under(#[trigger] s[j], top) == under(s[i], top) && h.mem@[s[j].1].name@ == n { let j = choose|j: int| 0 <= j < i && under(#[trigger] s[j], top) == under(s[i], top) && h.mem@[s[j].1].name@ == n; assert(under(t[j], top) == under(t[i], top)); }
        }
    } else {
        assert forall|n: Seq<char>| #[trigger] used_before(a, g, top, t, i, n) <==> used_under(h, h.id(q), n) by {
            if used_under(h, h.id(q), n) {
                let c = choose|c: RID| #[trigger] h.known(c) && h.nd(c).parent == Some(h.id(q)) && h.nd(c).name@ == n;
                if a.known(c) { let x = a.ptr(c); assert(a.live(x)); assert(h.mem@[x] == (NodeBase { children: h.mem@[x].children, ..a.mem@[x] })); lemma_kids(a, c); let y = a.ptr(h.id(q)); assert(a.live(y)); assert(h.live(y) && h.id(y) == h.id(q)); assert(y == q); }
                else { assert(came(s, h.ptr(c))); let j = choose|j: int| 0 <= j < s.len() && (#[trigger] s[j]).1 == h.ptr(c); assert(h.mem@[s[j].1].parent == Some(h.id(under(s[j], top)))); assert(under(s[j], top) == q); assert(under(t[j], top) == under(t[i], top)); }
            }
            if a.live(q) && used_under(a, a.id(q), n) {
                let c = choose|c: RID| #[trigger] a.known(c) && a.nd(c).parent == Some(a.id(q)) && a.nd(c).name@ == n;
                let x = a.ptr(c); assert(a.live(x)); assert(h.live(x)); assert(h.known(c)); assert(h.mem@[q].rid == a.mem@[q].rid);
            }
            if exists|j: int| 0 <= j < i && under(#[trigger] t[j], top) == under(t[i], top) && g.mem@[t[j].1].name@ == n { let j = choose|j: int| 0 <= j < i && under(#[trigger] t[j], top) == under(t[i], top) && g.mem@[t[j].1].name@ == n; let x = s[j].1; assert(h.live(x)); assert(h.mem@[x].parent == Some(h.id(q))); assert(h.known(h.id(x))); }
        }
    }
}
proof fn lemma_attach(a: &NodeTreeBase, h: &NodeTreeBase, g: &NodeTreeBase, top: NodePtr, v: Seq<Visit>, k: int, ret: RID, announce_: bool)
    requires
        a.inv(), h.inv(), g.inv(), a.live(top), visits_ok(a, top, v), 0 <= k < v.len(), attached(a, h, top, v.take(k), announce_), waiting(a, h, v, k), h.live(under(v[k], top)),
        grown(h, g, h.id(under(v[k], top)), ret, v[k].1, if v[k].2 { ret } else { h.mem@[under(v[k], top)].owner->0 }),
        g.events@ == (if announce_ { h.events@ + announce(ret, h.mem@[v[k].1].loaded) } else { h.events@ }),
        g.mem@[v[k].1].loaded == (!announce_ && h.mem@[v[k].1].loaded), name_given(h, h.id(under(v[k], top)), h.mem@[v[k].1].name@, g.mem@[v[k].1].name@),
    ensures
        attached(a, g, top, v.take(k + 1), announce_), waiting(a, g, v, k + 1),
{
    let (s, t, p, q) = (v.take(k), v.take(k + 1), v[k].1, under(v[k], top));
    assert(t.drop_last() =~= s); assert(t.last() == v[k]);
    assert(fresh(h, p));
    lemma_kids(h, h.id(q));
    assert forall|x: NodePtr| #[trigger] h.live(x) implies x != p && g.live(x) && g.mem@[x] == (NodeBase { children: g.mem@[x].children, ..h.mem@[x] }) && g.mem@[x].children@ == (if x == q { h.mem@[x].children@.push(ret) } else { h.mem@[x].children@ }) by {
        assert(h.known(h.id(x))); if x != q { assert(g.mem@[x] == h.mem@[x]); }
    }
    assert(g.live(p) && g.id(p) == ret);
    assert forall|i: int| 0 <= i < s.len() implies h.live((#[trigger] s[i]).1) by {}
    assert forall|x: NodePtr| #[trigger] kids_of(t, top, x) == (if x == q { kids_of(s, top, x).push(p) } else { kids_of(s, top, x) }) by {}
    assert forall|x: NodePtr| ids(g, kids_of(t, top, x)) == #[trigger] ids(h, kids_of(s, top, x)) + (if x == q { seq![ret] } else { seq![] }) by {
        lemma_kids_of(s, top, x);
        let (l, m) = (kids_of(s, top, x), kids_of(t, top, x));
        assert forall|i: int| 0 <= i < l.len() implies g.id(l[i]) == h.id(l[i]) by { assert(came(s, l[i])); let j = choose|j: int| 0 <= j < s.len() && (#[trigger] s[j]).1 == l[i]; assert(h.live(s[j].1)); }
        assert(ids(g, m) =~= ids(h, l) + (if x == q { seq![ret] } else { seq![] }));
    }
    assert forall|x: NodePtr| #[trigger] a.live(x) implies g.live(x) && g.mem@[x] == (NodeBase { children: g.mem@[x].children, ..a.mem@[x] }) && g.mem@[x].children@ == a.mem@[x].children@ + ids(g, kids_of(t, top, x)) by {
        assert(h.live(x));
        assert(g.mem@[x].children@ =~= a.mem@[x].children@ + ids(g, kids_of(t, top, x)));
    }
    assert forall|i: int| 0 <= i < t.len() implies {
        let p = (#[trigger] t[i]).1;
        &&& g.live(p) && !a.known(g.id(p)) && g.identity@[g.id(p)] is NodePath
        &&& g.mem@[p].parent == Some(g.id(under(t[i], top)))
        &&& g.mem@[p].owner == (if t[i].2 { Some(g.id(p)) } else { g.mem@[under(t[i], top)].owner })
        &&& g.mem@[p].children@ == ids(g, kids_of(t, top, p))
        &&& g.mem@[p].loaded == (!announce_ && a.mem@[p].loaded)
        &&& named_well(a, g, top, t, i)
    } by {
        let u = under(t[i], top); assert(t[i] == v[i]);
        lemma_used_before(a, h, g, top, v, k, i);
        if i < k {
            assert(s[i] == t[i]); let y = s[i].1; assert(h.live(y));
            // The parent is live before and after.
            if let Some(z) = s[i].0 { if z != top { let j = choose|j: int| 0 <= j < i && (#[trigger] v[j]).1 == z; assert(s[j].1 == z); } }
            assert(h.live(u));
            assert(g.mem@[y].children@ =~= ids(g, kids_of(t, top, y)));
        } else {
            lemma_kids_of(s, top, p);
            assert(kids_of(s, top, p).len() == 0) by { if kids_of(s, top, p).len() > 0 { let _ = kids_of(s, top, p)[0]; assert(came(s, kids_of(s, top, p)[0])); lemma_no_kids(a, v, top, k); } }
            assert(p != q);
            assert(ids(h, kids_of(s, top, p)) =~= seq![]);
            assert(g.mem@[p].children@ =~= ids(g, kids_of(t, top, p)));
            assert(!a.known(ret)) by { if a.known(ret) { assert(a.live(a.ptr(ret))); assert(h.live(a.ptr(ret))); } }
        }
    }
    assert forall|r: RID| #[trigger] g.known(r) implies a.known(r) || came(t, g.ptr(r)) by {
        if r == ret { assert(t[k].1 == p); } else { assert(h.known(r)); if !a.known(r) { assert(came(s, h.ptr(r))); let j = choose|j: int| 0 <= j < s.len() && (#[trigger] s[j]).1 == h.ptr(r); assert(t[j].1 == g.ptr(r)); } }
    }
    assert forall|r: RID| #[trigger] a.known(r) implies g.identity@[r] == a.identity@[r] by { assert(a.live(a.ptr(r))); assert(h.live(a.ptr(r))); }
    if announce_ {
        assert forall|i: int| 0 <= i < s.len() implies h.id((#[trigger] s[i]).1) == g.id(s[i].1) by { assert(h.live(s[i].1)); }
        lemma_announced(h, g, a, s);
        assert(g.events@ =~= a.events@ + announced(g, a, t));
    }
    assert forall|i: int| k + 1 <= i < v.len() implies fresh(g, (#[trigger] v[i]).1) && g.mem@[v[i].1] == a.mem@[v[i].1] by {
        let x = v[i].1; assert(v[k].1 != x); assert(fresh(h, x)); assert(h.known(h.id(q)));
        assert forall|r: RID| #[trigger] g.known(r) implies g.ptr(r) != x by { if r != ret { assert(h.known(r)); } }
    }
}
/// A node has no children from the scene before it is visited.
proof fn lemma_no_kids(a: &NodeTreeBase, v: Seq<Visit>, top: NodePtr, k: int)
    requires visits_ok(a, top, v), a.live(top), 0 <= k < v.len(),
    ensures kids_of(v.take(k), top, v[k].1).len() == 0,
{
    lemma_no_kids_tail(a, v, top, k, k);
}
proof fn lemma_no_kids_tail(a: &NodeTreeBase, v: Seq<Visit>, top: NodePtr, k: int, n: int)
    requires visits_ok(a, top, v), a.live(top), 0 <= n <= k < v.len(),
    ensures kids_of(v.take(n), top, v[k].1).len() == 0,
    decreases n,
{
    if n > 0 {
        lemma_no_kids_tail(a, v, top, k, n - 1);
        assert(v.take(n).drop_last() =~= v.take(n - 1)); assert(v.take(n).last() == v[n - 1]);
        assert(fresh(a, v[k].1));
        let z = under(v[n - 1], top);
        if z == v[k].1 { if let Some(y) = v[n - 1].0 { if y != top { let j = choose|j: int| 0 <= j < n - 1 && (#[trigger] v[j]).1 == y; assert(v[j].1 != v[k].1); } } }
    }
}
/// Instancing marks the nodes that come from saved text, and touches nothing else.
pub open spec fn marked(a: &NodeTreeBase, b: &NodeTreeBase, v: Seq<Visit>, m: Seq<bool>) -> bool {
    &&& a.but_mem(b) && m.len() == v.len()
    &&& forall|p: NodePtr| #[trigger] b.mem@.contains_key(p) <==> a.mem@.contains_key(p)
    &&& forall|p: NodePtr| #[trigger] a.mem@.contains_key(p) && !came(v, p) ==> b.mem@[p] == a.mem@[p]
    &&& forall|i: int| 0 <= i < v.len() ==> b.mem@[(#[trigger] v[i]).1] == (NodeBase { loaded: a.mem@[v[i].1].loaded || m[i], ..a.mem@[v[i].1] })
}
pub trait Instanceable: Sized {
    /// What instancing it visits, in order.
    spec fn visits(&self) -> Seq<Visit>;
    /// Which of the visited nodes come from saved text.
    spec fn saved(&self) -> Seq<bool>;
    /// Its nodes are allocated.
    spec fn intact(&self, h: &NodeTreeBase) -> bool;
    fn iterate(self, iterator: &mut Vec<Visit>, h: &mut NodeTreeBase)
        requires self.intact(old(h)),
        ensures final(iterator)@ == old(iterator)@ + self.visits(), marked(old(h), final(h), self.visits(), self.saved());
}
/// The visits of a scene, in order.
pub fn scene_visits<I: Instanceable>(scene: I, h: &mut NodeTreeBase) -> (ret: Vec<Visit>)
    requires scene.intact(old(h)),
    ensures ret@ == scene.visits(), marked(old(h), final(h), scene.visits(), scene.saved()),
{
    let mut out: Vec<Visit> = Vec::new();
    scene.iterate(&mut out, h);
    proof { assert(Seq::<Visit>::empty() + scene.visits() =~= scene.visits()); }
    out
}
proof fn lemma_marked(a: &NodeTreeBase, b: &NodeTreeBase, top: NodePtr, v: Seq<Visit>, m: Seq<bool>)
    requires marked(a, b, v, m), a.nodes.wf(), a.alloc(), forall|i: int| 0 <= i < v.len() ==> fresh(a, (#[trigger] v[i]).1),
    ensures
        b.links() == a.links(), a.inv() ==> b.inv(), b.nodes.wf(), b.alloc(), visits_ok(a, top, v) ==> visits_ok(b, top, v),
        forall|p: NodePtr| #[trigger] b.live(p) <==> a.live(p), forall|p: NodePtr| #[trigger] a.live(p) ==> b.mem@[p] == a.mem@[p],
{
    assert forall|r: RID| #[trigger] a.known(r) implies b.nd(r) == a.nd(r) && b.mem@.contains_key(a.ptr(r)) by {
        assert(!came(v, a.ptr(r))) by { if came(v, a.ptr(r)) { let j = choose|j: int| 0 <= j < v.len() && (#[trigger] v[j]).1 == a.ptr(r); assert(fresh(a, v[j].1)); } }
        assert(a.mem@.contains_key(a.ptr(r)));
    }
    assert forall|p: NodePtr| #[trigger] b.live(p) <==> a.live(p) by { if a.mem@.contains_key(p) { if came(v, p) { let j = choose|j: int| 0 <= j < v.len() && (#[trigger] v[j]).1 == p; assert(fresh(a, v[j].1)); } else { assert(b.mem@[p] == a.mem@[p]); } } }
    assert(b.links() =~= a.links()) by { assert forall|r: RID| #[trigger] b.links().contains_key(r) implies b.links()[r] == a.links()[r] by { assert(a.known(r)); assert(b.nd(r) == a.nd(r)); } }
    assert forall|r: RID| #[trigger] b.known(r) implies b.mem@.contains_key(b.ptr(r)) && b.nd(r).rid == r && b.nd(r).tree is Some by { assert(a.known(r)); }
    if a.inv() {
        assert forall|r: RID, s: RID| #[trigger] b.known(r) && #[trigger] b.known(s) && r != s && b.nd(r).parent is Some && b.nd(r).parent == b.nd(s).parent implies b.nd(r).name@ != b.nd(s).name@ by { assert(a.known(r) && a.known(s)); }
        assert forall|r: RID| b.known(r) == a.known(r) by {}
    }
    if visits_ok(a, top, v) {
        assert forall|i: int| 0 <= i < v.len() implies fresh(b, (#[trigger] v[i]).1) by { assert(fresh(a, v[i].1)); assert forall|r: RID| #[trigger] b.known(r) implies b.ptr(r) != v[i].1 by { assert(a.known(r)); } }
        assert forall|i: int| 0 <= i < v.len() implies ((#[trigger] v[i]).0 matches Some(q) ==> q == top || exists|j: int| 0 <= j < i && (#[trigger] v[j]).1 == q) by { if let Some(q) = v[i].0 { if q != top { let j = choose|j: int| 0 <= j < i && (#[trigger] v[j]).1 == q; assert(v[j].1 == q); } } }
    }
}
impl NodePtr {
//@ fn structs/node_base.rs NodeBase::add_child | h=mut
    requires
        old(h).inv(), old(h).live(self), child.intact(old(h)), visits_ok(old(h), self, child.visits()), quiet(),
        old(h).nodes.highest + child.visits().len() < u64::MAX, old(h).mem@[self].depth + child.visits().len() < usize::MAX,
    ensures
        final(h).shape_ok(), // [C02]
        final(h).sing_ok(), // [C09]
        final(h).names_ok(), // [C03]
        exists|m: NodeTreeBase| marked(old(h), &m, child.visits(), child.saved()) && #[trigger] attached(&m, final(h), self, child.visits(), true), // [C02,C17]
//@ hint beforeloop 0
    let ghost (a, v) = (*h, s0@);
    proof { lemma_marked(old(h), &a, self, v, child.saved()); lemma_attach_none(&a, self, v, true); }
//@ loop 0
    invariant AUTO
        s0@ == v, a.inv(), a.live(self), visits_ok(&a, self, v), h.inv(), quiet(), attached(&a, h, self, v.take(k0 as int), true), waiting(&a, h, v, k0 as int),
        h.nodes.highest <= a.nodes.highest + k0, a.nodes.highest + v.len() < u64::MAX, a.mem@[self].depth + v.len() < usize::MAX,
        forall|i: int| 0 <= i < k0 ==> h.mem@[(#[trigger] v[i]).1].depth <= a.mem@[self].depth + k0,
//@ hint loopstart 0
    let ghost b = *h;
    let ghost q = under(v[k0 as int], self);
    proof {
        assert(fresh(h, v[k0 as int].1));
        assert(h.live(q) && h.mem@[q].depth <= a.mem@[self].depth + k0) by { if v[k0 as int].0 is Some { let z = v[k0 as int].0->0; if z == self { } else { let j = choose|j: int| 0 <= j < k0 && (#[trigger] v[j]).1 == z; assert(v.take(k0 as int)[j].1 == z); } } }
    }
//@ hint loopend 0
    proof {
        lemma_attach(&a, &b, h, self, v, k0 as int - 1, h.id(v[k0 as int - 1].1), true);
    }
//@ hint afterloop 0
    proof { assert(v.take(v.len() as int) =~= v); assert(attached(&a, h, self, v, true)); }
//@ end
}
