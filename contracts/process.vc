// Frames.
//@ mode tree
//@ hmethods top_down set_status process process_mode terminal children rid
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Duration { p: usize }
/// How much time passed is up to the clock.
impl Instant {
    #[verifier::external_body]
    pub fn now() -> (ret: Instant) { unimplemented!() }
    #[verifier::external_body]
    pub fn duration_since(&self, earlier: Instant) -> (ret: Duration) ensures ret == time_from(earlier, *self), { unimplemented!() }
}
pub uninterp spec fn time_from(a: Instant, b: Instant) -> Duration;
pub uninterp spec fn seconds(d: Duration) -> f32;
impl Duration {
    #[verifier::external_body]
    pub fn as_secs_f32(&self) -> (ret: f32) ensures ret == seconds(*self), { unimplemented!() }
}
/// The effective mode of a node: its own, or that of its parent if it inherits; pausable at the root.
pub open spec fn effective(m: Links, d: Map<RID, NodePtr>, r: RID) -> ProcessMode
    decreases m[r].depth when m[r].depth >= 0
{ if mode_of(d[r]) != ProcessMode::Inherit { mode_of(d[r]) } else { inherited(m, d, r) } }
pub open spec fn inherited(m: Links, d: Map<RID, NodePtr>, r: RID) -> ProcessMode
    decreases m[r].depth, 0nat when m[r].depth >= 0
{ match m[r].parent { Some(p) => if m.contains_key(p) && 0 <= m[p].depth < m[r].depth { effective(m, d, p) } else { ProcessMode::Pausable }, None => ProcessMode::Pausable } }
/// Running enables always and pausable nodes, paused always and inverse ones.
pub open spec fn enabled(p: TreeProcess, mode: ProcessMode) -> bool {
    match p { TreeProcess::Running => mode == ProcessMode::Always || mode == ProcessMode::Pausable, TreeProcess::Paused => mode == ProcessMode::Always || mode == ProcessMode::Inverse }
}
/// The call that a node gets in a frame.
pub open spec fn call_of(m: Links, d: Map<RID, NodePtr>, st: TreeStatus, r: RID, delta: f32) -> Seq<Event> {
    match st {
        TreeStatus::Process(p) => if enabled(p, effective(m, d, r)) { seq![Event::Process(r, delta)] } else { seq![] },
        TreeStatus::QueuedTermination(p) => if enabled(p, effective(m, d, r)) { seq![Event::Process(r, delta)] } else { seq![] },
        TreeStatus::Terminating => seq![Event::Terminal(r, TerminationReason::TreeExit)],
        TreeStatus::Terminated => seq![],
    }
}
/// The calls that nodes get in a frame, one after the other.
pub open spec fn frame(m: Links, d: Map<RID, NodePtr>, st: TreeStatus, s: Seq<RID>, delta: f32) -> Seq<Event>
    decreases s.len()
{ if s.len() == 0 { seq![] } else { frame(m, d, st, s.drop_last(), delta) + call_of(m, d, st, s.last(), delta) } }
/// From a to b these nodes were handled; only the termination of the tree stops a frame.
pub open spec fn framed(a: &NodeTreeBase, b: &NodeTreeBase, s: Seq<RID>, delta: f32) -> bool {
    let f = frame(a.links(), a.nodes.data@, a.status, s, delta);
    &&& is_prefix(a.events@, b.events@) && is_prefix(b.events@, a.events@ + f)
    &&& b.status != TreeStatus::Terminated ==> b.events@ == a.events@ + f
}
proof fn lemma_frame_add(m: Links, d: Map<RID, NodePtr>, st: TreeStatus, s: Seq<RID>, t: Seq<RID>, delta: f32)
    ensures frame(m, d, st, s + t, delta) == frame(m, d, st, s, delta) + frame(m, d, st, t, delta),
    decreases t.len(),
{
    let (x, y) = (frame(m, d, st, s, delta), frame(m, d, st, t, delta));
    if t.len() == 0 { assert(s + t =~= s); assert(x + y =~= x); } else {
        lemma_frame_add(m, d, st, s, t.drop_last(), delta);
        assert((s + t).drop_last() =~= s + t.drop_last()); assert((s + t).last() == t.last());
        assert(frame(m, d, st, s + t, delta) =~= x + y);
    }
}
proof fn lemma_frame_status(m: Links, d: Map<RID, NodePtr>, a: TreeStatus, b: TreeStatus, s: Seq<RID>, delta: f32)
    requires forward(a, b),
    ensures b != TreeStatus::Terminated ==> frame(m, d, b, s, delta) == frame(m, d, a, s, delta), b == TreeStatus::Terminated ==> frame(m, d, b, s, delta) == Seq::<Event>::empty(),
    decreases s.len(),
{
    if s.len() > 0 { lemma_frame_status(m, d, a, b, s.drop_last(), delta); assert(b == TreeStatus::Terminated ==> frame(m, d, b, s, delta) =~= Seq::<Event>::empty()); }
}
/// One after the other.
proof fn lemma_framed(a: &NodeTreeBase, b: &NodeTreeBase, c: &NodeTreeBase, s: Seq<RID>, t: Seq<RID>, delta: f32)
    requires a.same(b), forward(a.status, b.status), forward(b.status, c.status), framed(a, b, s, delta), framed(b, c, t, delta),
    ensures framed(a, c, s + t, delta), forward(a.status, c.status),
{
    let (m, d) = (a.links(), a.nodes.data@);
    lemma_same(a, b);
    lemma_frame_add(m, d, a.status, s, t, delta);
    lemma_frame_status(m, d, a.status, b.status, t, delta);
    let (f, g) = (frame(m, d, a.status, s, delta), frame(m, d, a.status, t, delta));
    let (x, y, z) = (a.events@, b.events@, c.events@);
    let g2 = frame(m, d, b.status, t, delta);
    assert(x + (f + g) =~= (x + f) + g);
    assert(y + Seq::<Event>::empty() =~= y);
    assert(z.take(x.len() as int) =~= z.take(y.len() as int).take(x.len() as int));
    if b.status == TreeStatus::Terminated {
        assert(z == y) by { assert(is_prefix(y, z) && is_prefix(z, y)); assert(z.len() == y.len()); assert(z.take(y.len() as int) =~= z); }
        assert((x + (f + g)).take(z.len() as int) =~= (x + f).take(z.len() as int));
    } else { assert(y == x + f && g2 == g); }
}
/// More nodes only add calls.
proof fn lemma_framed_more(a: &NodeTreeBase, b: &NodeTreeBase, s: Seq<RID>, t: Seq<RID>, delta: f32)
    requires framed(a, b, s, delta), b.status == TreeStatus::Terminated,
    ensures framed(a, b, s + t, delta),
{
    let (m, d) = (a.links(), a.nodes.data@);
    lemma_frame_add(m, d, a.status, s, t, delta);
    let (f, g) = (frame(m, d, a.status, s, delta), frame(m, d, a.status, t, delta));
    assert((a.events@ + (f + g)).take(b.events@.len() as int) =~= (a.events@ + f).take(b.events@.len() as int));
}
proof fn lemma_framed_none(a: &NodeTreeBase, b: &NodeTreeBase, delta: f32)
    requires a.events@ == b.events@,
    ensures framed(a, b, seq![], delta),
{
    assert(a.events@ + frame(a.links(), a.nodes.data@, a.status, seq![], delta) =~= a.events@);
    assert(a.events@.take(a.events@.len() as int) =~= a.events@);
}
proof fn lemma_framed_one(a: &NodeTreeBase, b: &NodeTreeBase, r: RID, delta: f32)
    requires b.events@ == a.events@ + call_of(a.links(), a.nodes.data@, a.status, r, delta),
    ensures framed(a, b, seq![r], delta),
{
    let (m, d) = (a.links(), a.nodes.data@); let f = call_of(m, d, a.status, r, delta);
    assert(seq![r].drop_last() =~= seq![]); assert(frame(m, d, a.status, seq![], delta) + f =~= f);
    assert(frame(m, d, a.status, seq![r], delta) == f);
    assert(b.events@.take(a.events@.len() as int) =~= a.events@); assert((a.events@ + f).take(b.events@.len() as int) =~= b.events@);
}
proof fn lemma_pre_push(m: Links, s: Seq<RID>, x: RID, d: int)
    requires d < MAXD, m[x].depth == d,
    ensures pre_list(m, s.push(x), d) == pre_list(m, s, d) + pre(m, x),
    decreases s.len(),
{
    let t = s.push(x);
    if s.len() == 0 {
        assert(t.drop_first() =~= seq![]); assert(t[0] == x); assert(pre_list(m, seq![], d + 0) =~= seq![]); assert(pre_list(m, t, d) == pre(m, x) + pre_list(m, t.drop_first(), d)); assert(pre_list(m, t, d) =~= pre(m, x)); assert(pre_list(m, s, d) + pre(m, x) =~= pre(m, x));
    } else {
        assert(t.drop_first() =~= s.drop_first().push(x)); lemma_pre_push(m, s.drop_first(), x, d);
        assert(pre_list(m, t, d) =~= pre_list(m, s, d) + pre(m, x));
    }
}
proof fn lemma_pre_split(m: Links, s: Seq<RID>, k: int, d: int)
    requires d < MAXD, forall|i: int| 0 <= i < s.len() ==> m[#[trigger] s[i]].depth == d, 0 <= k <= s.len(),
    ensures pre_list(m, s, d) == pre_list(m, s.take(k), d) + pre_list(m, s.skip(k), d),
    decreases s.len() - k,
{
    if k == s.len() { assert(s.take(k) =~= s); assert(pre_list(m, s, d) =~= pre_list(m, s.take(k), d) + pre_list(m, s.skip(k), d)); } else {
        lemma_pre_split(m, s, k + 1, d); lemma_pre_push(m, s.take(k), s[k], d);
        assert(s.take(k).push(s[k]) =~= s.take(k + 1)); assert(s.skip(k).drop_first() =~= s.skip(k + 1));
        assert(pre_list(m, s, d) =~= pre_list(m, s.take(k), d) + (pre(m, s[k]) + pre_list(m, s.skip(k + 1), d)));
    }
}
impl NodeTreeBase {
//@ fn structs/node_tree_base.rs NodeTreeBase::process_tail | attr=verifier::exec_allows_no_decreases_clause
    requires
        old(self).inv(), inherited_process_mode != ProcessMode::Inherit,
        quiet() && old(self).known(node_rid) ==> inherited_process_mode == inherited(old(self).links(), old(self).nodes.data@, node_rid),
    ensures
        final(self).shape_ok(), // [C02]
        final(self).sing_ok(), // [C09]
        final(self).names_ok(), // [C03]
        forward(old(self).status, final(self).status), // [C08]
        is_prefix(old(self).events@, final(self).events@),
        !old(self).known(node_rid) ==> old(self).same(final(self)) && old(self).events@ == final(self).events@ && old(self).status == final(self).status, // [C07]
        quiet() ==> old(self).same(final(self)) && old(self).last_frame == final(self).last_frame, // [C07]
        quiet() && old(self).known(node_rid) ==> framed(old(self), final(self), pre(old(self).links(), node_rid), delta), // [C07,C08]
//@ hint entry
    let ghost a = *self; let ghost (m, d) = (a.links(), a.nodes.data@);
    proof { if a.known(node_rid) { assert(a.live(a.ptr(node_rid))); assert(down_ok(m, node_rid)); } assert(a.events@.take(a.events@.len() as int) =~= a.events@); }
//@ hint before get_node 0
    let ghost b = *self;
    proof {
        let (e, g) = (Event::Process(node_rid, delta), Event::Terminal(node_rid, TerminationReason::TreeExit));
        if is_prefix(a.events@.push(e), b.events@) { assert(a.events@.push(e).take(a.events@.len() as int) =~= a.events@); lemma_prefix(a.events@, a.events@.push(e), b.events@); }
        if is_prefix(a.events@.push(g), b.events@) { assert(a.events@.push(g).take(a.events@.len() as int) =~= a.events@); lemma_prefix(a.events@, a.events@.push(g), b.events@); }
        assert(b.events@.take(b.events@.len() as int) =~= b.events@);
        assert(is_prefix(a.events@, b.events@));
        if quiet() {
            lemma_same(&a, &b); assert(process_mode == effective(m, d, node_rid));
            assert(a.events@.push(e) =~= a.events@ + seq![e]); assert(a.events@.push(g) =~= a.events@ + seq![g]); assert(a.events@ + Seq::<Event>::empty() =~= a.events@);
            assert(b.events@ == a.events@ + call_of(m, d, a.status, node_rid, delta));
            lemma_framed_one(&a, &b, node_rid, delta);
        }
    }
//@ hint beforeloop 1
    proof { lemma_same(&b, self); if quiet() { lemma_same(&a, self); } assert(self.live(node)); }
//@ loop 1
    invariant AUTO
        self.inv(), self.known(node_rid), s1@.len() == self.nd(node_rid).children@.len(), o1@ == self.nd(node_rid).children@.take(k1 as int),
        forall|i: int| 0 <= i < s1@.len() ==> (#[trigger] s1@[i]).node == self.nd(node_rid).children@[i] && self.known(s1@[i].node),
//@ hint afterloop 1
    proof { assert(o1@ =~= self.nd(node_rid).children@); }
//@ hint beforeloop 0
    proof { if quiet() { assert(pre_list(m, s0@.take(0), m[node_rid].depth + 1) =~= seq![]); assert(seq![node_rid] + Seq::<RID>::empty() =~= seq![node_rid]); } }
//@ loop 0
    invariant AUTO
        self.inv(), process_mode != ProcessMode::Inherit, is_prefix(a.events@, self.events@), forward(a.status, self.status),
        quiet() ==> a.same(self) && a.last_frame == self.last_frame && a.known(node_rid) && s0@ == m[node_rid].kids && process_mode == effective(m, d, node_rid) && framed(&a, self, seq![node_rid] + pre_list(m, s0@.take(k0 as int), m[node_rid].depth + 1), delta),
        a.inv(), m == a.links(), d == a.nodes.data@,
    ensures k0 == s0.len() || self.status == TreeStatus::Terminated,
//@ hint loopstart 0
    let ghost b = *self; let ghost c = s0@[k0 as int];
    proof { if quiet() { lemma_same(&a, self); assert(down_ok(m, node_rid) && child_ok(m, node_rid, c)); } }
//@ hint after process_tail 0
    proof {
        assert(is_prefix(a.events@, self.events@)) by { assert(self.events@.take(a.events@.len() as int) =~= b.events@.take(a.events@.len() as int)); }
        if quiet() {
            let n = m[node_rid].depth + 1; let x = s0@.take(k0 - 1);
            assert(s0@.take(k0 as int) =~= x.push(c));
            lemma_pre_push(m, x, c, n);
            lemma_framed(&a, &b, self, seq![node_rid] + pre_list(m, x, n), pre(m, c), delta);
            assert((seq![node_rid] + pre_list(m, x, n)) + pre(m, c) =~= seq![node_rid] + pre_list(m, x.push(c), n));
        }
    }
//@ hint afterloop 0
    proof {
        if quiet() {
            let n = m[node_rid].depth + 1;
            if k0 == s0@.len() { assert(s0@.take(k0 as int) =~= s0@); } else {
                assert(down_ok(m, node_rid));
                assert forall|i: int| 0 <= i < s0@.len() implies m[#[trigger] s0@[i]].depth == n by { assert(child_ok(m, node_rid, s0@[i])); }
                assert(m.contains_key(s0@[0]) && down_ok(m, s0@[0]));
                lemma_pre_split(m, s0@, k0 as int, n);
                lemma_framed_more(&a, self, seq![node_rid] + pre_list(m, s0@.take(k0 as int), n), pre_list(m, s0@.skip(k0 as int), n), delta);
                assert((seq![node_rid] + pre_list(m, s0@.take(k0 as int), n)) + pre_list(m, s0@.skip(k0 as int), n) =~= pre(m, node_rid));
            }
        }
    }
//@ end
//@ fn structs/node_tree_base.rs NodeTreeBase::process
    requires old(self).inv(), old(self).known(0),
    ensures
        final(self).shape_ok(), // [C02]
        final(self).sing_ok(), // [C09]
        final(self).names_ok(), // [C03]
        ret == final(self).status, // [C08]
        old(self).status == TreeStatus::Terminated ==> *old(self) == *final(self), // [C08]
        quiet() ==> old(self).same(final(self)), // [C07]
        quiet() && old(self).status != TreeStatus::Terminated ==> exists|b: NodeTreeBase, now: Instant| #[trigger] framed(old(self), &b, pre(old(self).links(), 0), seconds(#[trigger] time_from(old(self).last_frame, now))) && b.events@ == final(self).events@ && final(self).last_frame == now
            && forward(old(self).status, b.status) && final(self).status == next_status(b.status), // [C07,C08]
//@ hint before get_nodes_mut 0
    let ghost a = *self; let ghost m = a.links();
    proof { lemma_same(old(self), self); assert(self.live(self.ptr(0))); assert(m.contains_key(0)); lemma_below(m, 0); lemma_kids(self, 0); assert forall|x: RID| #[trigger] branch_of(m, 0).contains(x) implies self.known(x) && self.mem@.contains_key(self.ptr(x)) by { assert(m.contains_key(x)); } }
//@ hint beforeloop 0
    proof { assert forall|i: int| 0 <= i < s0@.len() implies #[trigger] s0@[i] is Some && a.mem@.contains_key(s0@[i]->0) by { assert(branch_of(m, 0).contains(branch_of(m, 0)[i])); } }
//@ loop 0
    invariant AUTO
        *self == (NodeTreeBase { stats: self.stats, ..a }), a.inv(), forall|i: int| 0 <= i < s0@.len() ==> #[trigger] s0@[i] is Some && a.mem@.contains_key(s0@[i]->0),
        forall|i: int| 0 <= i < k0 ==> self.stats@[(#[trigger] s0@[i])->0] is Normal, // [C23]
//@ hint afterloop 0
    proof {
        lemma_same(&a, self); assert(self.same(&a));
        assert forall|r: RID| #[trigger] self.known(r) implies self.stat(r) is Normal by { // [C23]
            assert(m.contains_key(r)); lemma_anc_root(m, r); lemma_below(m, 0); let br = branch_of(m, 0); assert(br.contains(r)); let i = br.index_of(r); assert(s0@[i]->0 == a.ptr(r)); }
    }
//@ hint before process_tail 0
    proof { assert forall|r: RID| self.known(r) implies #[trigger] self.stat(r) is Normal by { assert(self.known(r)); } // [C23]
        assert(self.known(0)); assert(up_ok(m, 0)); }
//@ hint after process_tail 0
    let ghost b = *self;
    proof { if quiet() { assert(framed(old(self), &b, pre(old(self).links(), 0), seconds(time_from(old(self).last_frame, now)))); } lemma_same(&b, self); }
//@ hint exit
    proof { lemma_same(&b, self); }
//@ end
}
/// The status after a frame.
pub open spec fn next_status(s: TreeStatus) -> TreeStatus { match s { TreeStatus::QueuedTermination(_) => TreeStatus::Terminating, TreeStatus::Terminating => TreeStatus::Terminated, x => x } }
