// The report of a panic: the branch around the node, with the warnings and panics of this frame.
//@ mode tree
broadcast use {vstd::group_vstd_default, ax_display::group_display};
//@ consts utils/functions.rs draw_tree
//@ hmethods status
/// The name of a node as it is shown.
pub open spec fn painted(n: Seq<char>, s: Stat) -> Seq<char> { match s { Stat::Normal => n, Stat::Warned(_) => "\u{001b}[33m"@ + n + "\u{001b}[0m"@, Stat::Panicked(_) => "\u{001b}[31m"@ + n + "\u{001b}[0m"@ } }
pub open spec fn warned(n: Seq<char>, s: Stat) -> Seq<Seq<char>> { match s { Stat::Warned(m) => seq![n + " - "@ + m], _ => Seq::empty() } }
pub open spec fn panicked(n: Seq<char>, s: Stat) -> Seq<Seq<char>> { match s { Stat::Panicked(m) => seq![n + " - "@ + m], _ => Seq::empty() } }
/// What of a branch is collected: its picture, its warnings and its panics.
pub struct Drawn { pub text: Seq<char>, pub warns: Seq<Seq<char>>, pub panics: Seq<Seq<char>> }
pub open spec fn joined_to(a: Drawn, b: Drawn) -> Drawn { Drawn { text: a.text + b.text, warns: a.warns + b.warns, panics: a.panics + b.panics } }
/// The line of a child.
pub open spec fn drawn_line(h: &NodeTreeBase, c: RID, last: bool, prefix: Seq<char>, level: nat) -> Drawn {
    let n = h.nd(c).name@;
    Drawn { text: prefix + (if last { "└── "@ } else { "├── "@ }) + (if level != 0 { painted(n, h.stat(c)) } else { "..."@ }) + "\n"@, warns: warned(n, h.stat(c)), panics: panicked(n, h.stat(c)) }
}
/// The first k children of a node with what is below them, down to a level.
pub open spec fn drawn(h: &NodeTreeBase, r: RID, k: int, prefix: Seq<char>, level: nat) -> Drawn
    decreases level, k
{
    let kids = h.nd(r).children@;
    if k <= 0 || k > kids.len() { Drawn { text: Seq::empty(), warns: Seq::empty(), panics: Seq::empty() } } else {
        let c = kids[k - 1]; let last = k == kids.len();
        let here = joined_to(drawn(h, r, k - 1, prefix, level), drawn_line(h, c, last, prefix, level));
        if level == 0 || h.nd(c).children@.len() == 0 { here } else { joined_to(here, drawn(h, c, h.nd(c).children@.len() as int, prefix + (if last { "    "@ } else { "│   "@ }), (level - 1) as nat)) }
    }
}
/// The ancestor that so many levels lead to, or the root.
pub open spec fn ancestor(h: &NodeTreeBase, r: RID, up: nat) -> RID
    decreases up
{ match h.nd(r).parent { Some(p) if up > 0 => ancestor(h, p, (up - 1) as nat), _ => r } }
pub open spec fn listed(s: Seq<Seq<char>>, k: int, colour: Seq<char>) -> Seq<char>
    decreases k
{ if k <= 0 { Seq::empty() } else { listed(s, k - 1, colour) + colour + s[k - 1] + "\u{001b}[0m"@ } }
pub open spec fn listing(s: Seq<Seq<char>>, colour: Seq<char>) -> Seq<char> { if s.len() == 0 { "\nNone"@ } else { listed(s, s.len() as int, colour) } }
/// The whole report.
pub open spec fn report(h: &NodeTreeBase, r: RID, up: nat, down: nat) -> Seq<char> {
    let top = ancestor(h, r, up); let n = h.nd(top).name@; let d = drawn(h, top, h.nd(top).children@.len() as int, ""@, up + down + 1);
    "[REPORT START]\n"@ + painted(n, h.stat(top)) + "\n"@ + d.text
        + "\n[Same-Frame Warnings]"@ + listing(warned(n, h.stat(top)) + d.warns, "\n\u{001b}[33m"@)
        + "\n\n[Same-Frame Panics]"@ + listing(panicked(n, h.stat(top)) + d.panics, "\n\u{001b}[31m"@)
        + "\n\n[REPORT END]"@
}
/// Reports depend on the nodes and on nothing else.
proof fn lemma_drawn(a: &NodeTreeBase, b: &NodeTreeBase, r: RID, k: int, prefix: Seq<char>, level: nat)
    requires a.inv(), a.same(b), a.stats@ == b.stats@, a.known(r),
    ensures drawn(a, r, k, prefix, level) == drawn(b, r, k, prefix, level),
    decreases level, k,
{
    let kids = a.nd(r).children@;
    if k <= 0 || k > kids.len() { } else {
        let c = kids[k - 1]; lemma_kids(a, r); assert(a.known(c));
        lemma_drawn(a, b, r, k - 1, prefix, level);
        if level > 0 { lemma_drawn(a, b, c, a.nd(c).children@.len() as int, prefix + (if k == kids.len() { "    "@ } else { "│   "@ }), (level - 1) as nat); }
    }
}
proof fn lemma_ancestor(a: &NodeTreeBase, b: &NodeTreeBase, r: RID, up: nat)
    requires a.inv(), a.same(b), a.known(r),
    ensures ancestor(a, r, up) == ancestor(b, r, up), a.known(ancestor(a, r, up)),
    decreases up,
{ lemma_up(a, r); match a.nd(r).parent { Some(p) if up > 0 => lemma_ancestor(a, b, p, (up - 1) as nat), _ => {} } }
pub proof fn lemma_report(a: &NodeTreeBase, b: &NodeTreeBase, r: RID, up: nat, down: nat)
    requires a.inv(), a.same(b), a.stats@ == b.stats@, a.known(r),
    ensures report(a, r, up, down) == report(b, r, up, down),
{ lemma_ancestor(a, b, r, up); let top = ancestor(a, r, up); lemma_drawn(a, b, top, a.nd(top).children@.len() as int, ""@, up + down + 1); }
pub open spec fn texts(v: Seq<String>) -> Seq<Seq<char>> { v.map_values(|s: String| s@) }
impl TpDyn {
    /// Dereferences to the node.
    pub fn status(&self, h: &NodeTreeBase) -> (ret: NodeStatus) requires h.known(self.node), h.alloc(), ensures stat_of(ret) == h.stat(self.node), { self.get(h).status(h) }
    pub fn childless(&self, h: &NodeTreeBase) -> (ret: bool) requires h.known(self.node), h.inv(), ensures ret == (h.nd(self.node).children@.len() == 0), { self.get(h).childless(h) }
}
//@ fn utils/functions.rs draw_tree/get_start | heap=tree
    requires tree.inv(), tree.live(node),
    ensures tree.live(ret), tree.id(ret) == ancestor(tree, tree.id(node), view_left as nat), // [C23]
    decreases view_left,
//@ hint entry
    proof { lemma_up(tree, tree.id(node)); }
//@ end
//@ fn utils/functions.rs draw_tree/handle_name_and_status | realfmt mcall=to_owned=>&:to_text
    ensures
        ret@ == painted(child_name@, stat_of(status)), // [C23]
        texts(final(warnings)@) == texts(old(warnings)@) + warned(child_name@, stat_of(status)), // [C23]
        texts(final(panics)@) == texts(old(panics)@) + panicked(child_name@, stat_of(status)), // [C23]
//@ hint exit
    proof {
        assert(texts(warnings@) =~= texts(old(warnings)@) + warned(child_name@, stat_of(status)));
        assert(texts(panics@) =~= texts(old(panics)@) + panicked(child_name@, stat_of(status)));
    }
//@ end
//@ fn utils/functions.rs draw_tree/walk | heap=tree as=draw_below path=walk=>draw_below realfmt strplus mcall=to_string=>&:to_text
    requires tree.inv(), tree.known(node_rid),
    ensures
        final(out)@ == old(out)@ + drawn(tree, node_rid, tree.nd(node_rid).children@.len() as int, prefix@, level as nat).text, // [C23]
        texts(final(warnings)@) == texts(old(warnings)@) + drawn(tree, node_rid, tree.nd(node_rid).children@.len() as int, prefix@, level as nat).warns, // [C23]
        texts(final(panics)@) == texts(old(panics)@) + drawn(tree, node_rid, tree.nd(node_rid).children@.len() as int, prefix@, level as nat).panics, // [C23]
    decreases level,
//@ hint entry
    let ghost all = tree.nd(node_rid).children@;
//@ loop 0
    invariant AUTO
        tree.inv(), tree.known(node_rid), all == tree.nd(node_rid).children@, s0@.len() == all.len(), count + k0 == all.len(),
        forall|i: int| 0 <= i < s0@.len() ==> (#[trigger] s0@[i]).node == all[i] && tree.known(s0@[i].node),
        out@ == old(out)@ + drawn(tree, node_rid, k0 as int, prefix@, level as nat).text,
        texts(warnings@) == texts(old(warnings)@) + drawn(tree, node_rid, k0 as int, prefix@, level as nat).warns,
        texts(panics@) == texts(old(panics)@) + drawn(tree, node_rid, k0 as int, prefix@, level as nat).panics,
//@ end
//@ fn utils/functions.rs draw_tree | heap=node_tree as=draw_report path=walk=>draw_below realfmt strplus
    requires node_tree.inv(), node_tree.known(origin), view_up + view_down < usize::MAX,
    ensures
        ret@ == report(node_tree, origin, view_up as nat, view_down as nat), // [C23]
//@ hint after walk 0
    let ghost top = ancestor(node_tree, node_tree.id(origin), view_up as nat); let ghost kids = drawn(node_tree, top, node_tree.nd(top).children@.len() as int, ""@, (view_up + view_down + 1) as nat);
    let ghost ws = texts(warnings@); let ghost ps = texts(panics@); let ghost n = node_tree.nd(top).name@;
    proof {
        assert(ws =~= warned(n, node_tree.stat(top)) + kids.warns); assert(ps =~= panicked(n, node_tree.stat(top)) + kids.panics);
        assert(out@ =~= "[REPORT START]\n"@ + painted(n, node_tree.stat(top)) + "\n"@ + kids.text);
    }
//@ hint beforeloop 0
    let ghost out0 = out@;
//@ loop 0 elem=ref
    invariant AUTO
        texts(s0@) == ws, out@ == out0 + listed(ws, k0 as int, "\n\u{001b}[33m"@),
//@ hint beforeloop 1
    let ghost out1 = out@;
//@ loop 1 elem=ref
    invariant AUTO
        texts(s1@) == ps, out@ == out1 + listed(ps, k1 as int, "\n\u{001b}[31m"@),
//@ end
/// The picture of the tree that a panic prints.
pub fn draw_tree(tree: TreePtr, rid: RID, a: usize, b: usize, h: &NodeTreeBase) -> (ret: String)
    requires h.inv(), h.known(rid), a + b < usize::MAX,
    ensures ret@ == report(h, rid, a as nat, b as nat),
{ draw_report(h, rid, a, b) }
