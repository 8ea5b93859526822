/// Another child of p has this name.
pub open spec fn taken_under(h: &NodeTreeBase, p: RID, but: RID, n: Seq<char>) -> bool { exists|s: RID| #[trigger] h.known(s) && s != but && h.nd(s).parent == Some(p) && h.nd(s).name@ == n }
pub open spec fn name_in(h: &NodeTreeBase, s: Seq<RID>, but: RID, n: Seq<char>) -> bool { exists|i: int| 0 <= i < s.len() && #[trigger] s[i] != but && h.nd(s[i]).name@ == n }
proof fn lemma_taken_push(o: Seq<String>, x: String)
    ensures forall|n: Seq<char>| #[trigger] taken(o.push(x), n) <==> taken(o, n) || x@ == n,
{
    assert forall|n: Seq<char>| #[trigger] taken(o.push(x), n) <==> taken(o, n) || x@ == n by {
        if taken(o, n) { let i = choose|i: int| 0 <= i < o.len() && (#[trigger] o[i])@ == n; assert(o.push(x)[i]@ == n); }
        if x@ == n { assert(o.push(x)[o.len() as int]@ == n); }
        if taken(o.push(x), n) { let i = choose|i: int| 0 <= i < o.push(x).len() && (#[trigger] o.push(x)[i])@ == n; if i < o.len() { assert(o[i]@ == n); } }
    }
}
proof fn lemma_name_in_take(h: &NodeTreeBase, s: Seq<RID>, but: RID, k: int)
    requires 0 <= k < s.len(),
    ensures forall|n: Seq<char>| #[trigger] name_in(h, s.take(k + 1), but, n) <==> name_in(h, s.take(k), but, n) || (s[k] != but && h.nd(s[k]).name@ == n),
{
    assert forall|n: Seq<char>| #[trigger] name_in(h, s.take(k + 1), but, n) <==> name_in(h, s.take(k), but, n) || (s[k] != but && h.nd(s[k]).name@ == n) by {
        if name_in(h, s.take(k), but, n) { let i = choose|i: int| 0 <= i < k && #[trigger] s.take(k)[i] != but && h.nd(s.take(k)[i]).name@ == n; assert(s.take(k + 1)[i] == s.take(k)[i]); }
        if s[k] != but && h.nd(s[k]).name@ == n { assert(s.take(k + 1)[k] == s[k]); }
        if name_in(h, s.take(k + 1), but, n) { let i = choose|i: int| 0 <= i < k + 1 && #[trigger] s.take(k + 1)[i] != but && h.nd(s.take(k + 1)[i]).name@ == n; if i < k { assert(s.take(k)[i] == s.take(k + 1)[i]); } }
    }
}
proof fn lemma_taken_under(h: &NodeTreeBase, p: RID, but: RID)
    requires h.inv(), h.known(p),
    ensures forall|n: Seq<char>| #[trigger] name_in(h, h.nd(p).children@, but, n) <==> taken_under(h, p, but, n),
{
    let m = h.links(); let s = h.nd(p).children@;
    assert(m.contains_key(p) && m[p].kids == s);
    assert(down_ok(m, p));
    assert forall|n: Seq<char>| #[trigger] name_in(h, s, but, n) <==> taken_under(h, p, but, n) by {
        if name_in(h, s, but, n) { let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i] != but && h.nd(s[i]).name@ == n; assert(child_ok(m, p, s[i])); assert(h.known(s[i])); assert(m[s[i]].parent == h.nd(s[i]).parent); }
        if taken_under(h, p, but, n) { let r = choose|r: RID| #[trigger] h.known(r) && r != but && h.nd(r).parent == Some(p) && h.nd(r).name@ == n; assert(m.contains_key(r)); assert(m[r].parent == Some(p)); lemma_parent(m, r); let i = choose|i: int| 0 <= i < s.len() && s[i] == r; assert(s[i] != but); }
    }
}
/// Every child of a known node is known.
pub proof fn lemma_kids(h: &NodeTreeBase, r: RID)
    requires h.inv(), h.known(r),
    ensures
        forall|i: int| 0 <= i < h.nd(r).children@.len() ==> h.known(#[trigger] h.nd(r).children@[i]) && h.nd(h.nd(r).children@[i]).parent == Some(r),
        h.nd(r).parent matches Some(p) ==> h.known(p),
        h.nd(r).parent is None <==> r == 0,
        h.known(0), h.nd(r).owner is Some,
{
    let m = h.links();
    assert(m.contains_key(r)); assert(down_ok(m, r) && up_ok(m, r));
    assert forall|i: int| 0 <= i < h.nd(r).children@.len() implies h.known(#[trigger] h.nd(r).children@[i]) && h.nd(h.nd(r).children@[i]).parent == Some(r) by { assert(child_ok(m, r, m[r].kids[i])); }
}
/// Only the name of one node (or its loaded flag) differs.
pub proof fn lemma_rename(a: &NodeTreeBase, b: &NodeTreeBase, p: NodePtr)
    requires
        a.but_mem(b), a.mem@.contains_key(p), b.mem@ == a.mem@.insert(p, b.mem@[p]),
        b.mem@[p].rid == a.mem@[p].rid, link_of(b.mem@[p]) == link_of(a.mem@[p]), b.mem@[p].tree == a.mem@[p].tree,
    ensures b.links() == a.links(), a.alloc() ==> b.alloc(), a.sing_ok() ==> b.sing_ok(), a.nodes.wf() ==> b.nodes.wf(), b.mem@[p].name@ == a.mem@[p].name@ ==> (a.inv() ==> b.inv()),
{
    assert(b.links() =~= a.links());
    assert forall|r: RID| a.known(r) == b.known(r) && a.ptr(r) == b.ptr(r) by {}
    if a.alloc() { assert forall|r: RID| #[trigger] b.known(r) implies b.mem@.contains_key(b.ptr(r)) && b.nd(r).rid == r && b.nd(r).tree is Some by { assert(a.known(r)); } }
    if b.mem@[p].name@ == a.mem@[p].name@ { assert forall|r: RID| a.nd(r).name@ == b.nd(r).name@ && a.nd(r).parent == b.nd(r).parent by {}
        if a.inv() { assert forall|r: RID, s: RID| #[trigger] b.known(r) && #[trigger] b.known(s) && r != s && b.nd(r).parent is Some && b.nd(r).parent == b.nd(s).parent implies b.nd(r).name@ != b.nd(s).name@ by { assert(a.known(r) && a.known(s)); } } }
}
impl NodePtr {
//@ fn structs/node_base.rs NodeBase::set_name | h=mut mcall=to_string=>&:to_text
    requires
        old(h).mem@.contains_key(self), old(h).mem@[self].tree is Some ==> old(h).inv() && old(h).live(self),
    ensures
        old(h).but_mem(final(h)), final(h).mem@ == old(h).mem@.insert(self, final(h).mem@[self]), // [C02,C03,C06]
        final(h).mem@[self] == (NodeBase { name: final(h).mem@[self].name, ..old(h).mem@[self] }), // [C02,C03]
        final(h).links() == old(h).links(), // [C02]
        old(h).inv() && old(h).live(self) ==> final(h).shape_ok(), // [C02]
        old(h).inv() && old(h).live(self) ==> final(h).sing_ok(), // [C09]
        old(h).inv() && old(h).live(self) ==> final(h).names_ok(), // [C03]
        ({
            let b = old(h).mem@[self]; let new = final(h).mem@[self].name@;
            if b.tree is Some && b.parent is Some {
                let t = |n: Seq<char>| taken_under(old(h), b.parent->0, b.rid, n);
                !t(new) && (!t(name@) ==> new == name@) && (t(name@) ==> exists|n: usize| new == spec_stem(name@) + #[trigger] dec(n))
            } else { new == name@ }
        }), // [C03]
//@ hint entry
    proof {
        if h.mem@[self].tree is Some { lemma_kids(h, h.id(self)); }
        if h.mem@[self].tree is Some && h.mem@[self].parent is Some { lemma_kids(h, h.mem@[self].parent->0); lemma_taken_under(h, h.mem@[self].parent->0, h.id(self)); }
    }
//@ loop 0 out=Vec<String>
    invariant AUTO
        *h == *old(h), h.inv(), h.known(h.id(self)), h.ptr(h.id(self)) == self, h.mem@.contains_key(self), h.mem@[self].parent is Some, h.known(h.mem@[self].parent->0), parent == h.ptr(h.mem@[self].parent->0),
        s0@.len() == h.mem@[parent].children@.len(), forall|i: int| 0 <= i < s0@.len() ==> (#[trigger] s0@[i]).node == h.mem@[parent].children@[i] && h.known(s0@[i].node),
        forall|n: Seq<char>| #[trigger] taken(o0@, n) <==> name_in(h, h.mem@[parent].children@.take(k0 as int), h.id(self), n),
//@ hint loopstart 0
    let ghost before = o0@;
    proof { lemma_name_in_take(h, h.mem@[parent].children@, h.id(self), k0 as int); let _ = s0@[k0 as int]; }
//@ hint loopend 0
    proof {
        if o0@.len() > before.len() { lemma_taken_push(before, o0@.last()); assert(o0@ =~= before.push(o0@.last())); }
    }
//@ hint afterloop 0
    proof { assert(h.mem@[parent].children@.take(h.mem@[parent].children@.len() as int) =~= h.mem@[parent].children@); }
//@ hint exit
    proof {
        let a = old(h);
        lemma_rename(a, h, self);
        if a.inv() && a.live(self) {
            let r0 = a.id(self);
            assert forall|r: RID, s: RID| #[trigger] h.known(r) && #[trigger] h.known(s) && r != s && h.nd(r).parent is Some && h.nd(r).parent == h.nd(s).parent implies h.nd(r).name@ != h.nd(s).name@ by {
                assert(a.known(r) && a.known(s));
                if r == r0 { assert(h.nd(s) == a.nd(s)); } else if s == r0 { assert(h.nd(r) == a.nd(r)); } else { assert(h.nd(s) == a.nd(s) && h.nd(r) == a.nd(r)); }
            }
        }
    }
//@ end
}
