// Adding nodes.
//@ mode node
//@ hmethods add_child_from_ptr
/// An allocated node that is not in the tree.
pub open spec fn fresh(h: &NodeTreeBase, p: NodePtr) -> bool { h.mem@.contains_key(p) && h.mem@[p].tree is None && h.mem@[p].children@.len() == 0 && forall|r: RID| #[trigger] h.known(r) ==> h.ptr(r) != p }
/// b is a with the node at p as the last child c of r. Nothing else differs.
pub open spec fn grown(a: &NodeTreeBase, b: &NodeTreeBase, r: RID, c: RID, p: NodePtr, owner: RID) -> bool {
    &&& !a.known(c) && b.nodes.wf() && b.nodes.data@ == a.nodes.data@.insert(c, p)
    &&& b.identity@ == a.identity@.insert(c, NodeIdentity::NodePath) && b.singletons@ == a.singletons@
    &&& b.nodes.highest <= a.nodes.highest + 1
    &&& b.mem@ == a.mem@.insert(p, b.mem@[p]).insert(a.ptr(r), b.mem@[a.ptr(r)])
    &&& link_of(b.mem@[p]) == (Link { parent: Some(r), owner: Some(owner), kids: seq![], depth: a.nd(r).depth + 1 }) && b.mem@[p].rid == c && b.mem@[p].tree is Some
    &&& b.mem@[a.ptr(r)].children@ == a.nd(r).children@.push(c) && b.mem@[a.ptr(r)] == (NodeBase { children: b.mem@[a.ptr(r)].children, ..a.nd(r) })
}
/// What is announced to a new node.
pub open spec fn announce(c: RID, loaded: bool) -> Seq<Event> { (if loaded { seq![Event::Loaded(c)] } else { seq![] }).push(Event::Ready(c)) }
/// Another child of p has this name.
pub open spec fn used_under(h: &NodeTreeBase, p: RID, n: Seq<char>) -> bool { exists|s: RID| #[trigger] h.known(s) && h.nd(s).parent == Some(p) && h.nd(s).name@ == n }
/// The name of a new child.
pub open spec fn name_given(h: &NodeTreeBase, p: RID, want: Seq<char>, new: Seq<char>) -> bool {
    &&& !used_under(h, p, new)
    &&& !used_under(h, p, want) ==> new == want
    &&& used_under(h, p, want) ==> exists|n: usize| new == spec_stem(want) + #[trigger] dec(n)
}
proof fn lemma_used_under(h: &NodeTreeBase, p: RID)
    requires h.inv(), h.known(p),
    ensures forall|n: Seq<char>| #[trigger] name_in(h, h.nd(p).children@, 0, n) <==> used_under(h, p, n),
{
    lemma_taken_under(h, p, 0);
    assert forall|n: Seq<char>| #[trigger] taken_under(h, p, 0, n) <==> used_under(h, p, n) by {
        if used_under(h, p, n) { let s = choose|s: RID| #[trigger] h.known(s) && h.nd(s).parent == Some(p) && h.nd(s).name@ == n; lemma_kids(h, s); }
    }
}
proof fn lemma_grown(a: &NodeTreeBase, b: &NodeTreeBase, r: RID, c: RID, p: NodePtr, owner: RID)
    requires
        a.inv(), a.known(r), fresh(a, p), grown(a, b, r, c, p, owner), a.nd(r).depth < usize::MAX,
        owner == c || Some(owner) == a.nd(r).owner,
        forall|s: RID| #[trigger] a.known(s) && a.nd(s).parent == Some(r) ==> a.nd(s).name@ != b.mem@[p].name@,
    ensures b.inv(), b.links() == a.links().insert(c, link_of(b.mem@[p])).insert(r, Link { kids: a.links()[r].kids.push(c), ..a.links()[r] }),
{
    let (m, n) = (a.links(), b.links());
    let q = a.ptr(r);
    assert(p != q);
    assert forall|s: RID| b.known(s) <==> (a.known(s) || s == c) by {}
    assert forall|s: RID| a.known(s) implies #[trigger] b.ptr(s) == a.ptr(s) && a.ptr(s) != p && (s != r ==> a.ptr(s) != q && b.nd(s) == a.nd(s)) by { assert(a.nd(s).rid == s); }
    assert(b.ptr(c) == p);
    assert(b.nd(r) == b.mem@[q]);
    assert(n =~= m.insert(c, link_of(b.mem@[p])).insert(r, Link { kids: m[r].kids.push(c), ..m[r] })) by {
        assert forall|s: RID| #[trigger] n.contains_key(s) implies n[s] == m.insert(c, link_of(b.mem@[p])).insert(r, Link { kids: m[r].kids.push(c), ..m[r] })[s] by { assert(b.known(s)); if s != c && s != r { assert(b.nd(s) == a.nd(s)); } }
    }
    assert forall|s: RID| #[trigger] b.known(s) implies b.mem@.contains_key(b.ptr(s)) && b.nd(s).rid == s && b.nd(s).tree is Some by { if s != c { assert(a.known(s)); } }
    assert(m.contains_key(r) && down_ok(m, r) && up_ok(m, r));
    assert forall|s: RID| #[trigger] n.contains_key(s) implies up_ok(n, s) && down_ok(n, s) && n.contains_key(0) by {
        if s == c { assert(n[r].kids[m[r].kids.len() as int] == c); assert(c != 0) by { assert(m.contains_key(0)); } }
        else {
            assert(m.contains_key(s)); assert(up_ok(m, s) && down_ok(m, s));
            if let Some(t) = m[s].parent { if t == r { let i = choose|i: int| 0 <= i < m[r].kids.len() && m[r].kids[i] == s; assert(n[r].kids[i] == s); } else { assert(n[t] == m[t]); } }
            if s == r {
                assert(!m[r].kids.contains(c)) by { if m[r].kids.contains(c) { lemma_kid(m, r, c); } }
                assert forall|i: int| 0 <= i < n[r].kids.len() implies child_ok(n, r, #[trigger] n[r].kids[i]) by { if i < m[r].kids.len() { assert(child_ok(m, r, m[r].kids[i])); assert(m[r].kids[i] != r); } }
            } else {
                assert forall|i: int| 0 <= i < n[s].kids.len() implies child_ok(n, s, #[trigger] n[s].kids[i]) by { assert(child_ok(m, s, m[s].kids[i])); assert(m.contains_key(m[s].kids[i])); }
            }
        }
    }
    assert forall|s: RID, t: RID| #[trigger] b.known(s) && #[trigger] b.known(t) && s != t && b.nd(s).parent is Some && b.nd(s).parent == b.nd(t).parent implies b.nd(s).name@ != b.nd(t).name@ by {
        assert(s != c ==> a.known(s) && b.nd(s).parent == a.nd(s).parent && b.nd(s).name@ == a.nd(s).name@);
        assert(t != c ==> a.known(t) && b.nd(t).parent == a.nd(t).parent && b.nd(t).name@ == a.nd(t).name@);
    }
    assert forall|s: RID| #[trigger] b.identity@.contains_key(s) <==> b.known(s) by { assert(a.identity@.contains_key(s) <==> a.known(s)); }
    assert forall|x: Seq<char>| #[trigger] b.singletons@.contains_key(x) implies b.known(b.singletons@[x]) && b.named(b.singletons@[x], x) by { assert(a.known(a.singletons@[x])); assert(a.named(a.singletons@[x], x)); }
    assert forall|s: RID| #[trigger] b.identity@.contains_key(s) implies (b.identity@[s] matches NodeIdentity::UniqueName(x) ==> b.singletons@.contains_key(x@) && b.singletons@[x@] == s) by { assert(a.identity@.contains_key(s) || s == c); }
}
proof fn lemma_grown_flag(a: &NodeTreeBase, b: &NodeTreeBase, c: &NodeTreeBase, r: RID, k: RID, p: NodePtr, owner: RID)
    requires
        grown(a, b, r, k, p, owner), p != a.ptr(r), c.nodes.same(&b.nodes), c.nodes.wf(), c.identity@ == b.identity@, c.singletons@ == b.singletons@,
        c.mem@ == b.mem@.insert(p, c.mem@[p]), link_of(c.mem@[p]) == link_of(b.mem@[p]), c.mem@[p].rid == b.mem@[p].rid, c.mem@[p].tree is Some,
    ensures grown(a, c, r, k, p, owner),
{
    let q = a.ptr(r);
    assert(c.mem@[q] == b.mem@[q]);
    assert(c.mem@ =~= a.mem@.insert(p, c.mem@[p]).insert(q, c.mem@[q]));
}
proof fn lemma_prefix<A>(a: Seq<A>, b: Seq<A>, c: Seq<A>)
    requires is_prefix(a, b), is_prefix(b, c),
    ensures is_prefix(a, c),
{ assert(c.take(a.len() as int) =~= b.take(a.len() as int)); }
impl NodePtr {
//@ fn structs/node_base.rs NodeBase::add_child_from_ptr | h=mut mcall=to_string=>&:to_text panics=old(h).mem.view()[self].tree.is_none()
    requires
        old(h).inv(), old(h).held(self), fresh(old(h), child_ptr), old(h).room(), old(h).mem@[self].depth < usize::MAX,
        ignore_ready || quiet() || (keeps(self) && keeps(child_ptr)),
    ensures
        old(h).inside(self), // [C22]
        final(h).shape_ok(), // [C02]
        final(h).sing_ok(), // [C09]
        final(h).names_ok(), // [C03]
        final(h).live(self), final(h).id(self) == old(h).id(self), final(h).live(child_ptr), final(h).id(child_ptr) == ret, // [C02]
        ignore_ready || quiet() ==> grown(old(h), final(h), old(h).id(self), ret, child_ptr, if owner_is_self { ret } else { old(h).mem@[self].owner->0 }), // [C02]
        ignore_ready || quiet() ==> name_given(old(h), old(h).id(self), old(h).mem@[child_ptr].name@, final(h).mem@[child_ptr].name@), // [C03]
        ignore_ready ==> final(h).events@ == old(h).events@ && final(h).mem@[child_ptr].loaded == old(h).mem@[child_ptr].loaded, // [C17]
        !ignore_ready && quiet() ==> final(h).events@ == old(h).events@ + announce(ret, old(h).mem@[child_ptr].loaded) && !final(h).mem@[child_ptr].loaded, // [C17]
        !ignore_ready && !quiet() ==> is_prefix(old(h).events@.push(announce(ret, old(h).mem@[child_ptr].loaded)[0]), final(h).events@), // [C17]
        forward(old(h).status, final(h).status), // [C08]
//@ hint entry
    let ghost (a, r, p) = (*h, h.id(self), child_ptr);
    proof { if h.inside(self) { lemma_kids(h, r); } }
//@ loop 0 out=Vec<String>
    invariant AUTO
        *h == *old(h), h.inv(), h.live(self), a == *old(h), r == h.id(self),
        s0@.len() == h.mem@[self].children@.len(), forall|i: int| 0 <= i < s0@.len() ==> (#[trigger] s0@[i]).node == h.mem@[self].children@[i] && h.known(s0@[i].node),
        forall|n: Seq<char>| #[trigger] taken(o0@, n) <==> name_in(h, h.mem@[self].children@.take(k0 as int), 0, n),
//@ hint loopstart 0
    let ghost before = o0@;
    proof { lemma_name_in_take(h, h.mem@[self].children@, 0, k0 as int); let _ = s0@[k0 as int]; lemma_kid(h.links(), r, h.mem@[self].children@[k0 as int]); }
//@ hint loopend 0
    proof { lemma_taken_push(before, o0@.last()); assert(o0@ =~= before.push(o0@.last())); }
//@ hint afterloop 0
    proof { let k = h.mem@[self].children@; assert(k.take(k.len() as int) =~= k); lemma_used_under(h, r); }
//@ hint after push 0
    proof {
        assert(h.mem@ =~= a.mem@.insert(p, h.mem@[p]).insert(a.ptr(r), h.mem@[a.ptr(r)]));
        assert(link_of(h.mem@[p]).kids =~= seq![]);
        assert(grown(&a, h, r, child_rid, p, if owner_is_self { child_rid } else { a.nd(r).owner->0 }));
        assert forall|s: RID| #[trigger] a.known(s) && a.nd(s).parent == Some(r) implies a.nd(s).name@ != h.mem@[p].name@ by { assert(used_under(&a, r, a.nd(s).name@)); }
        lemma_grown(&a, h, r, child_rid, p, if owner_is_self { child_rid } else { a.nd(r).owner->0 });
    }
    let ghost b = *h;
//@ hint after get_node_mut 1
    proof { lemma_same(&b, h); }
//@ hint before loaded 0
    let ghost f = *h;
//@ hint after loaded 0
    proof { assert(f.live(self) && f.live(p)); assert(h.live(self) && h.live(p) && h.id(self) == r && h.id(p) == child_rid); }
//@ hint before mark_as_final 0
    let ghost e = *h;
//@ hint after mark_as_final 0
    proof { lemma_rename(&e, h, p); if !quiet() { assert(is_prefix(a.events@.push(announce(child_rid, a.mem@[p].loaded)[0]), h.events@)); } }
//@ hint before ready 0
    let ghost f = *h;
    proof { if quiet() { assert(h.mem@ =~= b.mem@.insert(p, h.mem@[p])); lemma_grown_flag(&a, &b, h, r, child_rid, p, if owner_is_self { child_rid } else { a.nd(r).owner->0 }); } }
//@ hint after ready 0
    proof {
        assert(f.live(self) && f.live(p)); assert(h.live(self) && h.live(p) && h.id(self) == r && h.id(p) == child_rid);
        if !quiet() { assert(f.events@.push(Event::Ready(child_rid)).take(f.events@.len() as int) =~= f.events@); lemma_prefix(f.events@, f.events@.push(Event::Ready(child_rid)), h.events@); if a.mem@[p].loaded { lemma_prefix(a.events@.push(Event::Loaded(child_rid)), f.events@, h.events@); } }
        assert(quiet() ==> h.events@ =~= a.events@ + announce(child_rid, a.mem@[p].loaded));
    }
//@ hint before post 0
    let ghost e = *h;
//@ hint after post 0
    proof { lemma_same(&e, h); }
//@ end
}
