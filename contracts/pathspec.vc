// What path texts mean: shared by the path group and by lookups in the tree.
pub enum SegView { Node(Seq<char>), This, Parent }
pub open spec fn parse_seg(t: Seq<char>) -> SegView { if t == "."@ { SegView::This } else if t == ".."@ { SegView::Parent } else { SegView::Node(t) } }
pub open spec fn seg_text(s: SegView) -> Seq<char> { match s { SegView::Node(t) => t, SegView::This => "."@, SegView::Parent => ".."@ } }
/// The segments between slashes, including empty ones.
pub open spec fn split_at(s: Seq<char>, c: char) -> Seq<Seq<char>> decreases s.len() {
    if s.len() == 0 { seq![Seq::<char>::empty()] }
    else if s[0] == c { seq![Seq::<char>::empty()] + split_at(s.drop_first(), c) }
    else { let r = split_at(s.drop_first(), c); r.update(0, seq![s[0]] + r[0]) }
}
