// Removing branches.
//@ mode node
//@ hmethods terminate queue_termination unregister_node remove_child free
impl TpDyn {
    pub fn top_down(&self, contains_self: bool, h: &NodeTreeBase) -> (ret: Vec<RID>)
        requires h.inv(), h.known(self.node),
        ensures ret@ == (if contains_self { seq![self.node] } else { seq![] }) + below(h.links(), self.node),
    { h.get_node(self.node).unwrap().top_down(contains_self, h) }
}
impl TreePtr {
    pub fn terminate(self, h: &mut NodeTreeBase)
        ensures old(h).same(final(h)), old(h).events@ == final(h).events@, old(h).logger == final(h).logger, old(h).last_frame == final(h).last_frame, final(h).status == TreeStatus::Terminated,
    { h.terminate() }
    pub fn unregister_node(self, rid: RID, h: &mut NodeTreeBase) -> (ret: Option<NodeBox>)
        requires old(h).nodes.wf(), old(h).sing_ok(), old(h).known(rid) ==> old(h).mem@.contains_key(old(h).ptr(rid)),
        ensures unregistered(old(h), final(h), rid), ret.is_some() == old(h).known(rid),
    { h.unregister_node(rid) }
}
pub open spec fn unregistered(a: &NodeTreeBase, b: &NodeTreeBase, rid: RID) -> bool {
    &&& b.nodes.wf() && b.sing_ok() && a.side(b)
    &&& b.nodes.data@ == a.nodes.data@.remove(rid) && b.identity@ == a.identity@.remove(rid)
    &&& b.mem@ == (if a.known(rid) { a.mem@.remove(a.ptr(rid)) } else { a.mem@ })
    &&& forall|n: Seq<char>| #[trigger] b.singletons@.contains_key(n) <==> a.singletons@.contains_key(n) && a.singletons@[n] != rid
    &&& forall|n: Seq<char>| #[trigger] b.singletons@.contains_key(n) ==> b.singletons@[n] == a.singletons@[n]
}
/// Branch order of the termination calls: the node, then the levels below it.
pub open spec fn branch_of(m: Links, r: RID) -> Seq<RID> { seq![r] + below(m, r) }
pub open spec fn terminated(s: Seq<RID>, reason: TerminationReason) -> Seq<Event> { s.map_values(|r: RID| Event::Terminal(r, reason)) }
/// b is a without the listed nodes.
pub open spec fn dropped(a: &NodeTreeBase, b: &NodeTreeBase, s: Seq<RID>) -> bool {
    &&& b.nodes.wf() && b.sing_ok()
    &&& forall|r: RID| #[trigger] b.known(r) <==> a.known(r) && !s.contains(r)
    &&& forall|r: RID| #[trigger] b.known(r) ==> b.ptr(r) == a.ptr(r) && b.mem@.contains_key(b.ptr(r)) && b.nd(r) == a.nd(r) && b.identity@[r] == a.identity@[r]
    &&& forall|n: Seq<char>| #[trigger] b.singletons@.contains_key(n) <==> a.singletons@.contains_key(n) && !s.contains(a.singletons@[n])
    &&& forall|n: Seq<char>| #[trigger] b.singletons@.contains_key(n) ==> b.singletons@[n] == a.singletons@[n]
    &&& forall|p: NodePtr| #[trigger] b.mem@.contains_key(p) <==> a.mem@.contains_key(p) && !(exists|i: int| 0 <= i < s.len() && a.known(s[i]) && a.ptr(#[trigger] s[i]) == p)
}
/// b is a without the branch of r: everything else is as it was.
pub open spec fn cut(a: &NodeTreeBase, b: &NodeTreeBase, r: RID) -> bool {
    &&& forall|s: RID| #[trigger] b.known(s) <==> a.known(s) && !anc(a.links(), r, s)
    &&& forall|s: RID| #[trigger] b.known(s) ==> b.ptr(s) == a.ptr(s) && b.mem@.contains_key(b.ptr(s)) && b.identity@[s] == a.identity@[s]
    &&& forall|s: RID| #[trigger] b.known(s) && a.nd(r).parent != Some(s) ==> b.nd(s) == a.nd(s)
    &&& forall|s: RID| #[trigger] b.known(s) && a.nd(r).parent == Some(s) ==> b.nd(s) == (NodeBase { children: b.nd(s).children, ..a.nd(s) }) && b.nd(s).children@ == without(a.nd(s).children@, r)
    &&& forall|n: Seq<char>| #[trigger] b.singletons@.contains_key(n) <==> a.singletons@.contains_key(n) && !anc(a.links(), r, a.singletons@[n])
    &&& forall|n: Seq<char>| #[trigger] b.singletons@.contains_key(n) ==> b.singletons@[n] == a.singletons@[n]
}
pub open spec fn without(s: Seq<RID>, r: RID) -> Seq<RID> { s.remove(s.index_of(r)) }
proof fn lemma_without(s: Seq<RID>, r: RID, i: int)
    requires s.no_duplicates(), 0 <= i < s.len(), s[i] == r,
    ensures without(s, r) == s.remove(i), without(s, r).no_duplicates(), forall|x: RID| #[trigger] without(s, r).contains(x) <==> s.contains(x) && x != r,
{
    let j = s.index_of(r); assert(s[j] == r); assert(i == j);
    let t = s.remove(i);
    assert forall|x: RID| #[trigger] t.contains(x) <==> s.contains(x) && x != r by {
        if t.contains(x) { let k = choose|k: int| 0 <= k < t.len() && t[k] == x; if k < i { assert(s[k] == x); } else { assert(s[k + 1] == x); } }
        if s.contains(x) && x != r { let k = choose|k: int| 0 <= k < s.len() && s[k] == x; if k < i { assert(t[k] == x); } else { assert(t[k - 1] == x); } }
    }
}
/// Below r stays below r.
proof fn lemma_anc_up(m: Links, r: Id, x: Id)
    requires tree_ok(m), m.contains_key(r), m.contains_key(x), anc(m, r, x), x != r,
    ensures m[x].parent is Some, anc(m, r, m[x].parent->0), m[x].depth > m[r].depth,
{
    lemma_anc_step(m, r, x);
    assert(up_ok(m, x) && down_ok(m, x));
    lemma_up_to(m, r, m[0].depth); lemma_up_to(m, x, m[0].depth);
    match m[x].parent { Some(p) => { lemma_parent(m, x); } None => { } }
}
proof fn lemma_anc_down(m: Links, r: Id, x: Id)
    requires tree_ok(m), m.contains_key(r), m.contains_key(x), m[x].parent matches Some(p) && anc(m, r, p),
    ensures anc(m, r, x),
{ lemma_parent(m, x); lemma_anc_kid(m, m[x].parent->0, x); lemma_anc_trans(m, r, m[x].parent->0, x); }
/// A tree without a branch is a tree.
proof fn lemma_cut(a: &NodeTreeBase, b: &NodeTreeBase, r: RID)
    requires a.inv(), a.known(r), cut(a, b, r), b.nodes.wf(), b.sing_ok(),
    ensures b.inv(),
{
    let (m, n) = (a.links(), b.links());
    assert(m.contains_key(r)); assert(down_ok(m, r) && up_ok(m, r));
    lemma_anc_step(m, r, r);
    if a.nd(r).parent is Some { lemma_parent(m, r); let p = a.nd(r).parent->0; assert(down_ok(m, p)); let i = choose|i: int| 0 <= i < m[p].kids.len() && m[p].kids[i] == r; lemma_without(m[p].kids, r, i); }
    assert forall|s: RID| #[trigger] n.contains_key(s) implies m.contains_key(s) && s != r && n[s] == (Link { kids: n[s].kids, ..m[s] }) && n[s].kids.no_duplicates() && (forall|x: RID| #[trigger] n[s].kids.contains(x) <==> m[s].kids.contains(x) && x != r) by {
        assert(b.known(s)); assert(a.known(s)); assert(down_ok(m, s));
        if a.nd(r).parent != Some(s) { assert forall|x: RID| #[trigger] n[s].kids.contains(x) implies x != r by { lemma_kid(m, s, x); } }
    }
    assert forall|s: RID| #[trigger] n.contains_key(s) implies up_ok(n, s) && down_ok(n, s) && n.contains_key(0) by {
        assert(m.contains_key(s) && up_ok(m, s) && down_ok(m, s)); assert(b.known(s)); assert(a.known(s)); assert(!anc(m, r, s));
        if let Some(p) = m[s].parent { lemma_parent(m, s); if anc(m, r, p) { lemma_anc_down(m, r, s); } assert(a.known(p)); assert(b.known(p)); assert(n.contains_key(p)); assert(n[p].kids.contains(s)); }
        assert forall|i: int| 0 <= i < n[s].kids.len() implies child_ok(n, s, #[trigger] n[s].kids[i]) by {
            let c = n[s].kids[i]; assert(n[s].kids.contains(c)); lemma_kid(m, s, c);
            if anc(m, r, c) { lemma_anc_up(m, r, c); }
            assert(b.known(c)); assert(n.contains_key(c));
        }
        assert(m.contains_key(0)); lemma_up_to(m, r, m[0].depth); 
        if anc(m, r, 0) { if r != 0 { lemma_anc_up(m, r, 0); assert(up_ok(m, 0)); } else { lemma_anc_root(m, s); } }
        assert(b.known(0));
    }
    assert forall|s: RID| #[trigger] b.known(s) implies b.mem@.contains_key(b.ptr(s)) && b.nd(s).rid == s && b.nd(s).tree is Some by { assert(a.known(s)); }
    assert forall|s: RID, t: RID| #[trigger] b.known(s) && #[trigger] b.known(t) && s != t && b.nd(s).parent is Some && b.nd(s).parent == b.nd(t).parent implies b.nd(s).name@ != b.nd(t).name@ by { assert(a.known(s) && a.known(t)); }
}
proof fn lemma_terminated(s: Seq<RID>, k: int, reason: TerminationReason)
    requires 0 <= k < s.len(),
    ensures terminated(s.take(k + 1), reason) == terminated(s.take(k), reason).push(Event::Terminal(s[k], reason)),
{ assert(terminated(s.take(k + 1), reason) =~= terminated(s.take(k), reason).push(Event::Terminal(s[k], reason))); }
/// Dropping the branch after the parent has forgotten it.
proof fn lemma_dropped(a: &NodeTreeBase, b: &NodeTreeBase, c: &NodeTreeBase, r: RID)
    requires
        a.inv(), a.known(r), b.nodes.same(&a.nodes), b.identity@ == a.identity@, b.singletons@ == a.singletons@,
        match a.nd(r).parent {
            None => b.mem@ == a.mem@,
            Some(p) => b.mem@ == a.mem@.insert(a.ptr(p), b.nd(p)) && b.nd(p) == (NodeBase { children: b.nd(p).children, ..a.nd(p) }) && b.nd(p).children@ == without(a.nd(p).children@, r),
        },
        dropped(b, c, branch_of(a.links(), r)),
    ensures cut(a, c, r), c.inv(),
{
    let m = a.links(); lemma_below(m, r); lemma_kids(a, r);
    assert forall|s: RID| #[trigger] a.known(s) && a.nd(r).parent != Some(s) implies b.nd(s) == a.nd(s) by { if let Some(p) = a.nd(r).parent { assert(a.nd(p).rid == p && a.nd(s).rid == s); assert(a.ptr(p) != a.ptr(s)); } }
    lemma_cut(a, c, r);
}
proof fn lemma_unlist(a: &NodeTreeBase, b: &NodeTreeBase, p: NodePtr)
    requires a.but_mem(b), a.alloc(), a.sing_ok(), a.nodes.wf(), a.mem@.contains_key(p), b.mem@ == a.mem@.insert(p, b.mem@[p]), b.mem@[p] == (NodeBase { children: b.mem@[p].children, ..a.mem@[p] }),
    ensures b.alloc(), b.sing_ok(), b.nodes.wf(),
{
    assert forall|r: RID| #[trigger] b.known(r) implies b.mem@.contains_key(b.ptr(r)) && b.nd(r).rid == r && b.nd(r).tree is Some by { assert(a.known(r)); }
    assert forall|r: RID| a.known(r) == b.known(r) by {}
}
proof fn lemma_drop_none(b: &NodeTreeBase, h: &NodeTreeBase, s: Seq<RID>)
    requires b.same(h), b.alloc(), b.sing_ok(), b.nodes.wf(), h.nodes.wf(),
    ensures dropped(b, h, s.take(0)),
{ lemma_same(b, h); assert forall|r: RID| b.known(r) == h.known(r) && b.nd(r) == h.nd(r) by {} }
proof fn lemma_cut_same(a: &NodeTreeBase, b: &NodeTreeBase, c: &NodeTreeBase, r: RID)
    requires cut(a, b, r), b.same(c),
    ensures cut(a, c, r),
{ assert forall|s: RID| c.known(s) == b.known(s) && c.nd(s) == b.nd(s) by {} }
/// One more node dropped. It may have been changed just before.
proof fn lemma_drop_step(b: &NodeTreeBase, h: &NodeTreeBase, d: &NodeTreeBase, g: &NodeTreeBase, s: Seq<RID>, k: int)
    requires
        b.alloc(), b.sing_ok(), s.no_duplicates(), 0 <= k < s.len(), dropped(b, h, s.take(k)),
        d.nodes.data@ == h.nodes.data@, d.identity@ == h.identity@, d.singletons@ == h.singletons@,
        h.known(s[k]) ==> d.mem@ == h.mem@.insert(h.ptr(s[k]), d.mem@[h.ptr(s[k])]), !h.known(s[k]) ==> d.mem@ == h.mem@,
        unregistered(d, g, s[k]),
    ensures dropped(b, g, s.take(k + 1)),
{
    let (u, v, x) = (s.take(k), s.take(k + 1), s[k]);
    assert forall|r: RID| #[trigger] v.contains(r) <==> u.contains(r) || r == x by {
        if v.contains(r) { let i = choose|i: int| 0 <= i < v.len() && v[i] == r; if i < k { assert(u[i] == r); } }
        if u.contains(r) { let i = choose|i: int| 0 <= i < u.len() && u[i] == r; assert(v[i] == r); }
        if r == x { assert(v[k] == r); }
    }
    assert forall|r: RID| #[trigger] g.known(r) <==> b.known(r) && !v.contains(r) by { assert(h.known(r) <==> b.known(r) && !u.contains(r)); }
    assert forall|r: RID| #[trigger] g.known(r) implies g.ptr(r) == b.ptr(r) && g.mem@.contains_key(g.ptr(r)) && g.nd(r) == b.nd(r) && g.identity@[r] == b.identity@[r] by {
        assert(h.known(r)); assert(r != x); assert(b.known(r));
        if h.known(x) { assert(b.known(x)); assert(b.nd(x).rid == x && b.nd(r).rid == r); assert(h.ptr(x) != h.ptr(r)); }
    }
    assert forall|n: Seq<char>| #[trigger] g.singletons@.contains_key(n) <==> b.singletons@.contains_key(n) && !v.contains(b.singletons@[n]) by { assert(h.singletons@.contains_key(n) <==> b.singletons@.contains_key(n) && !u.contains(b.singletons@[n])); }
    assert forall|n: Seq<char>| #[trigger] g.singletons@.contains_key(n) implies g.singletons@[n] == b.singletons@[n] by { assert(h.singletons@.contains_key(n)); }
    assert forall|p: NodePtr| #[trigger] g.mem@.contains_key(p) <==> b.mem@.contains_key(p) && !(exists|i: int| 0 <= i < v.len() && b.known(v[i]) && b.ptr(#[trigger] v[i]) == p) by {
        if exists|i: int| 0 <= i < v.len() && b.known(v[i]) && b.ptr(#[trigger] v[i]) == p { let i = choose|i: int| 0 <= i < v.len() && b.known(v[i]) && b.ptr(#[trigger] v[i]) == p; if i < k { assert(u[i] == v[i]); } else { assert(!u.contains(x)) by { if u.contains(x) { let j = choose|j: int| 0 <= j < u.len() && u[j] == x; assert(s[j] == s[k]); } } assert(h.known(x)); } }
        if exists|i: int| 0 <= i < u.len() && b.known(u[i]) && b.ptr(#[trigger] u[i]) == p { let i = choose|i: int| 0 <= i < u.len() && b.known(u[i]) && b.ptr(#[trigger] u[i]) == p; assert(v[i] == u[i]); }
        if h.known(x) && h.ptr(x) == p { assert(b.known(x)); assert(v[k] == x); }
    }
}
/// The outcome of searching the first k nodes for a name.
pub open spec fn found_at(h: &NodeTreeBase, o: Option<(usize, TpDyn)>, kids: Seq<RID>, n: Seq<char>, k: int) -> bool {
    match o {
        None => forall|i: int| 0 <= i < k ==> h.nd(#[trigger] kids[i]).name@ != n,
        Some((i, c)) => i < kids.len() && c.node == kids[i as int] && h.nd(kids[i as int]).name@ == n && forall|j: int| 0 <= j < i ==> h.nd(#[trigger] kids[j]).name@ != n,
    }
}
impl NodePtr {
//@ fn structs/node_base.rs NodeBase::remove_child | h=mut mcall=to_string=>&:to_text panics=old(h).mem.view()[self].tree.is_none()
    requires old(h).inv(), old(h).held(self), quiet(),
    ensures
        old(h).inside(self), // [C22]
        final(h).shape_ok(), // [C02,C06]
        final(h).sing_ok(), // [C09]
        final(h).names_ok(), // [C03]
        forward(old(h).status, final(h).status), // [C08]
        match find_named(old(h), old(h).mem@[self].children@, name@) { // [C06]
            None => !ret && old(h).same(final(h)) && final(h).events@ == old(h).events@, // [C06]
            Some(c) => ret && cut(old(h), final(h), c) && final(h).events@ == old(h).events@ + terminated(branch_of(old(h).links(), c), TerminationReason::RemovedAsChild), // [C06]
        },
//@ hint entry
    let ghost a = *h; let ghost kids = h.mem@[self].children@; let ghost m = h.links();
    proof { if h.inside(self) { lemma_kids(h, h.id(self)); lemma_find_named(h, kids, name@, 0); assert(down_ok(m, h.id(self)) && m[h.id(self)].kids == kids); } }
//@ loop 0
    invariant AUTO
        *h == *old(h), a == *old(h), h.inv(), h.live(self), kids == h.mem@[self].children@,
        forall|i: int| 0 <= i < kids.len() ==> h.known(#[trigger] kids[i]),
        s0@.len() == kids.len(), forall|i: int| 0 <= i < s0@.len() ==> (#[trigger] s0@[i]).node == kids[i],
        found_at(h, o0, kids, name@, k0 as int),
//@ hint loopstart 0
    proof { let _ = s0@[k0 as int]; let _ = kids[k0 as int]; }
//@ hint afterloop 0
    proof { let o: Option<(usize, TpDyn)> = o0; match o { None => { lemma_find_named(h, kids, name@, kids.len() as int); } Some((i, c)) => { lemma_find_named(h, kids, name@, i as int); } } }
//@ hint before remove 0
    let ghost r = kids[child_idx as int];
    proof { lemma_below(m, r); lemma_kid(m, h.id(self), r); lemma_without(kids, r, child_idx as int); assert(connected@ == branch_of(m, r)); assert forall|i: int| 0 <= i < connected@.len() implies h.known(#[trigger] connected@[i]) by { assert(branch_of(m, r).contains(connected@[i])); } assert(!branch_of(m, r).contains(h.id(self))) by { if branch_of(m, r).contains(h.id(self)) { assert(anc(m, r, h.id(self))); } } }
//@ hint after remove 0
    let ghost b = *h;
    proof { lemma_unlist(&a, h, self); }
//@ loop 1
    invariant AUTO
        s1@ == connected@, connected@ == branch_of(m, r), quiet(), b.same(h), h.nodes.wf(), b.alloc(), b.live(self), forward(a.status, h.status),
        forall|i: int| 0 <= i < connected@.len() ==> b.known(#[trigger] connected@[i]),
        h.events@ == a.events@ + terminated(connected@.take(k1 as int), TerminationReason::RemovedAsChild),
//@ hint loopstart 1
    proof { let x = connected@[k1 as int]; assert(b.known(x)); lemma_terminated(connected@, k1 as int, TerminationReason::RemovedAsChild); assert(b.live(b.ptr(x))); assert(h.live(h.ptr(x))); }
//@ hint loopend 1
    proof { assert(h.events@ =~= a.events@ + terminated(connected@.take(k1 as int), TerminationReason::RemovedAsChild)); }
//@ hint afterloop 1
    proof { assert(connected@.take(connected@.len() as int) =~= connected@); }
//@ hint beforeloop 2
    let ghost t = *h;
    proof { lemma_drop_none(&b, h, s2@); }
//@ loop 2
    invariant AUTO
        s2@ == branch_of(m, r), quiet(), dropped(&b, h, s2@.take(k2 as int)), b.alloc(), b.sing_ok(), s2@.no_duplicates(), b.live(self), !s2@.contains(b.id(self)), b.mem@[self].tree is Some,
        t.side(h),
//@ hint loopstart 2
    let ghost before = *h; let ghost mut d = *h;
    proof { assert(h.known(b.id(self))); }
//@ hint before unregister_node 0
    proof { d = *h; let x = s2@[k2 - 1]; if before.known(x) { assert(d.mem@ =~= before.mem@.insert(before.ptr(x), d.mem@[before.ptr(x)])); } }
//@ hint loopend 2
    proof { lemma_drop_step(&b, &before, &d, h, s2@, k2 - 1); }
//@ hint afterloop 2
    proof { assert(s2@.take(s2@.len() as int) =~= s2@); lemma_dropped(&a, &b, h, r); }
//@ hint after post 0
    proof { lemma_same(&a, h); }
//@ hint before post 1
    let ghost z = *h;
    proof { assert(h.known(b.id(self))); }
//@ hint after post 1
    proof { lemma_same(&z, h); lemma_cut_same(&a, &z, h, r); }
//@ end
}
impl NodePtr {
//@ fn structs/node_base.rs NodeBase::free | h=mut panics=old(h).mem.view()[self].tree.is_none()
    requires old(h).inv(), old(h).held(self), quiet(),
    ensures
        old(h).inside(self), // [C22]
        final(h).shape_ok(), // [C02,C06]
        final(h).sing_ok(), // [C09]
        final(h).names_ok(), // [C03]
        cut(old(h), final(h), old(h).id(self)), // [C06]
        final(h).events@ == old(h).events@ + terminated(branch_of(old(h).links(), old(h).id(self)), TerminationReason::Freed), // [C06]
        if old(h).id(self) == 0 { final(h).status == TreeStatus::Terminated } else { forward(old(h).status, final(h).status) }, // [C06,C08]
        old(h).id(self) == 0 ==> forall|r: RID| !final(h).known(r), // [C06]
//@ hint entry
    let ghost a = *h; let ghost m = h.links(); let ghost r = h.id(self);
    proof { if h.inside(self) {
        lemma_kids(h, r); lemma_below(m, r); lemma_up(h, r);
        assert forall|i: int| 0 <= i < branch_of(m, r).len() implies h.known(#[trigger] branch_of(m, r)[i]) by { assert(branch_of(m, r).contains(branch_of(m, r)[i])); }
    } }
//@ hint beforeloop 0
    proof { assert(branch@ == branch_of(m, r)); assert forall|i: int| 0 <= i < branch@.len() implies a.known(#[trigger] branch@[i]) by { assert(a.known(branch_of(m, r)[i])); } }
//@ loop 0
    invariant AUTO
        s0@ == branch@, branch@ == branch_of(m, r), quiet(), a.same(h), h.nodes.wf(), a.alloc(), a.live(self), forward(a.status, h.status),
        forall|i: int| 0 <= i < branch@.len() ==> a.known(#[trigger] branch@[i]),
        h.events@ == a.events@ + terminated(branch@.take(k0 as int), TerminationReason::Freed),
//@ hint loopstart 0
    proof { let x = branch@[k0 as int]; assert(a.known(x)); lemma_terminated(branch@, k0 as int, TerminationReason::Freed); assert(a.live(a.ptr(x))); assert(h.live(h.ptr(x))); }
//@ hint loopend 0
    proof { assert(h.events@ =~= a.events@ + terminated(branch@.take(k0 as int), TerminationReason::Freed)); }
//@ hint afterloop 0
    proof { assert(branch@.take(branch@.len() as int) =~= branch@); }
//@ loop 1
    invariant AUTO
        s1@ == h.mem@[parent].children@, rid == r,
        match o1 { None => forall|i: int| 0 <= i < k1 ==> #[trigger] s1@[i] != r, Some(i) => i < s1@.len() && s1@[i as int] == r },
//@ hint afterloop 1
    proof { assert(a.nd(a.nd(r).parent->0).children@.contains(r)); }
//@ hint before remove 0
    let ghost f = *h;
    proof { let p = a.nd(r).parent->0; lemma_same(&a, h); assert(m.contains_key(p)); assert(down_ok(m, p)); lemma_without(m[p].kids, r, child_idx as int); }
//@ hint after remove 0
    proof { lemma_unlist(&f, h, parent); }
//@ hint beforeloop 2
    let ghost t = *h;
    proof { if a.nd(r).parent is None { lemma_same(&a, h); } lemma_drop_none(&t, h, s2@); }
//@ loop 2
    invariant AUTO
        s2@ == branch_of(m, r), dropped(&t, h, s2@.take(k2 as int)), t.alloc(), t.sing_ok(), s2@.no_duplicates(), t.side(h),
//@ hint loopstart 2
    let ghost before = *h;
//@ hint loopend 2
    proof { let x = s2@[k2 - 1]; if before.known(x) { assert(before.mem@ =~= before.mem@.insert(before.ptr(x), before.mem@[before.ptr(x)])); } lemma_drop_step(&t, &before, &before, h, s2@, k2 - 1); }
//@ hint afterloop 2
    proof { assert(s2@.take(s2@.len() as int) =~= s2@); lemma_dropped(&a, &t, h, r); }
//@ hint before terminate 0
    let ghost z = *h;
//@ hint after terminate 0
    proof { lemma_same(&z, h); lemma_cut_same(&a, &z, h, r); assert forall|s: RID| !h.known(s) by { if a.known(s) { lemma_anc_root(m, s); assert(!z.known(s)); } } }
//@ end
}
