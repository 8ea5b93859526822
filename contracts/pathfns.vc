//@ include strings.vc
//@ include pathspec.vc

impl<T: Text + ?Sized> Text for Box<T> { open spec fn text(&self) -> Seq<char> { (**self).text() } fn as_text(&self) -> (ret: &str) { (**self).as_text() } }
#[verifier::external_body]
pub fn str_into_box(s: &str) -> (ret: Box<str>) ensures ret@ == s@, { s.into() }
#[verifier::external_body]
pub fn box_is_empty(s: &Box<str>) -> (ret: bool) ensures ret == (s@.len() == 0), { s.is_empty() }
#[verifier::external_body]
pub fn it_split<'a>(s: &'a str, c: char) -> (ret: Vec<&'a str>)
    ensures ret@.len() == split_at(s@, c).len(), forall|i: int| 0 <= i < ret@.len() ==> (#[trigger] ret@[i])@ == split_at(s@, c)[i],
{ s.split(c).collect() }
#[verifier::external_body]
pub fn str_starts_with(s: &str, c: char) -> (ret: bool) ensures ret == (s@.len() > 0 && s@[0] == c), { s.starts_with(c) }
#[verifier::external_body]
pub fn str_pop(s: &mut String) -> (ret: Option<char>)
    ensures final(s)@ == (if old(s)@.len() > 0 { old(s)@.drop_last() } else { old(s)@ }),
{ s.pop() }
#[verifier::external_body]
pub fn str_push<A: Text + ?Sized>(s: &mut String, a: &A) ensures final(s)@ == old(s)@ + a.text(), { s.push_str(a.as_text()) }
#[verifier::external_body]
pub fn str_cat<A: Text + ?Sized>(s: String, a: &A) -> (ret: String) ensures ret@ == s@ + a.text(), { s + a.as_text() }
#[verifier::external_body]
pub fn deque_retain<T, F: FnMut(&T) -> bool>(v: &mut VecDeque<T>, f: F)
    requires forall|x: &T| f.requires((x,)),
    ensures forall|p: spec_fn(T) -> bool| (forall|x: &T, r: bool| #[trigger] f.ensures((x,), r) ==> r == p(*x)) ==> final(v)@ == #[trigger] old(v)@.filter(p),
{ v.retain(f) }

//@ type structs/node_path.rs PathSeg
//@ type structs/node_path.rs NodePath

pub open spec fn seg_views(s: Seq<PathSeg>) -> Seq<SegView> { s.map_values(|x: PathSeg| x.view()) }
pub open spec fn nonempty_seg() -> spec_fn(PathSeg) -> bool { |x: PathSeg| !(x.view() matches SegView::Node(t) && t.len() == 0) }
pub open spec fn nonempty_text() -> spec_fn(Seq<char>) -> bool { |t: Seq<char>| t.len() > 0 }
pub open spec fn parser() -> spec_fn(Seq<char>) -> SegView { |t: Seq<char>| parse_seg(t) }
/// The meaning of a path text: its non-empty segments in order.
pub open spec fn parsed(s: Seq<char>) -> Seq<SegView> { split_at(s, '/').filter(nonempty_text()).map_values(parser()) }
pub open spec fn absolute(s: Seq<char>) -> bool { s.len() > 0 && s[0] == '/' }
/// Every segment followed by a slash.
pub open spec fn slashed(s: Seq<SegView>) -> Seq<char> decreases s.len() { if s.len() == 0 { Seq::empty() } else { slashed(s.drop_last()) + seg_text(s.last()) + seq!['/'] } }
pub open spec fn joined(s: Seq<SegView>) -> Seq<char> { if s.len() == 0 { Seq::empty() } else { slashed(s).drop_last() } }
pub open spec fn printed(s: Seq<SegView>, abs: bool) -> Seq<char> { if abs { seq!['/'] + joined(s) } else { joined(s) } }
pub open spec fn no_slash(t: Seq<char>) -> bool { forall|i: int| 0 <= i < t.len() ==> t[i] != '/' }
/// Segments as parsing makes them, without slashes in the names.
pub open spec fn plain_seg(s: SegView) -> bool { match s { SegView::Node(t) => t.len() > 0 && t != "."@ && t != ".."@ && no_slash(t), _ => true } }

proof fn lemma_split_plain(t: Seq<char>) requires no_slash(t) ensures split_at(t, '/') == seq![t] decreases t.len()
{
    if t.len() > 0 { lemma_split_plain(t.drop_first()); assert(seq![t[0]] + t.drop_first() =~= t); assert(split_at(t, '/') =~= seq![t]); } else { assert(t =~= Seq::empty()); }
}
proof fn lemma_split_nonempty(u: Seq<char>) ensures split_at(u, '/').len() > 0 decreases u.len()
{ if u.len() > 0 { lemma_split_nonempty(u.drop_first()); } }
proof fn lemma_split_push(u: Seq<char>, t: Seq<char>) requires no_slash(t) ensures split_at(u + seq!['/'] + t, '/') == split_at(u, '/').push(t) decreases u.len()
{
    let w = u + seq!['/'] + t;
    lemma_split_nonempty(u);
    if u.len() == 0 {
        lemma_split_plain(t);
        assert(w.drop_first() =~= t);
        assert(split_at(w, '/') =~= split_at(u, '/').push(t));
    } else {
        lemma_split_push(u.drop_first(), t);
        lemma_split_nonempty(u.drop_first());
        assert(w.drop_first() =~= u.drop_first() + seq!['/'] + t);
        assert(split_at(w, '/') =~= split_at(u, '/').push(t));
    }
}
proof fn lemma_seg_text(s: SegView) requires plain_seg(s) ensures seg_text(s).len() > 0, no_slash(seg_text(s)), parse_seg(seg_text(s)) == s
{
    reveal_strlit("."); reveal_strlit("..");
    assert("."@.len() == 1 && ".."@.len() == 2);
}
proof fn lemma_split_joined(s: Seq<SegView>)
    requires forall|i: int| 0 <= i < s.len() ==> plain_seg(#[trigger] s[i]), s.len() > 0,
    ensures split_at(joined(s), '/') == s.map_values(|x: SegView| seg_text(x)),
    decreases s.len(),
{
    let p = s.drop_last(); let t = seg_text(s.last());
    lemma_seg_text(s.last());
    if p.len() == 0 {
        assert(slashed(p) =~= Seq::empty());
        assert(joined(s) =~= t);
        lemma_split_plain(t);
        assert(s.map_values(|x: SegView| seg_text(x)) =~= seq![t]);
    } else {
        assert forall|i: int| 0 <= i < p.len() implies plain_seg(#[trigger] p[i]) by { assert(p[i] == s[i]); }
        lemma_split_joined(p);
        assert(slashed(p).last() == '/' && slashed(p).len() > 0);
        assert(joined(s) =~= joined(p) + seq!['/'] + t);
        lemma_split_push(joined(p), t);
        assert(s.map_values(|x: SegView| seg_text(x)) =~= p.map_values(|x: SegView| seg_text(x)).push(t));
    }
}
proof fn lemma_filter_all<A>(s: Seq<A>, p: spec_fn(A) -> bool) requires forall|i: int| 0 <= i < s.len() ==> p(#[trigger] s[i]) ensures s.filter(p) == s decreases s.len()
{ reveal(Seq::filter); if s.len() > 0 { lemma_filter_all(s.drop_last(), p); assert(s.drop_last().push(s.last()) =~= s); } }
proof fn lemma_filter_first<A>(s: Seq<A>, p: spec_fn(A) -> bool) requires s.len() > 0, !p(s[0]) ensures s.filter(p) == s.drop_first().filter(p) decreases s.len()
{
    reveal(Seq::filter);
    if s.len() > 1 {
        lemma_filter_first(s.drop_last(), p);
        assert(s.drop_first().drop_last() =~= s.drop_last().drop_first());
        assert(s.drop_first().last() == s.last());
    } else { assert(s.drop_first() =~= Seq::empty()); assert(s.drop_last() =~= Seq::empty()); }
}
proof fn lemma_filter_step<A>(s: Seq<A>, p: spec_fn(A) -> bool)
    requires s.len() > 0
    ensures s.filter(p) == (if p(s.last()) { s.drop_last().filter(p).push(s.last()) } else { s.drop_last().filter(p) })
{ reveal(Seq::filter); }
proof fn lemma_filter_none<A>(s: Seq<A>, p: spec_fn(A) -> bool) requires s.len() == 0 ensures s.filter(p) =~= Seq::empty() { reveal(Seq::filter); }
pub open spec fn nonempty_view() -> spec_fn(SegView) -> bool { |x: SegView| !(x matches SegView::Node(t) && t.len() == 0) }
proof fn lemma_filter_views(v: Seq<PathSeg>) ensures seg_views(v.filter(nonempty_seg())) == seg_views(v).filter(nonempty_view()) decreases v.len()
{
    if v.len() > 0 {
        lemma_filter_views(v.drop_last()); lemma_filter_step(v, nonempty_seg()); lemma_filter_step(seg_views(v), nonempty_view());
        assert(seg_views(v).drop_last() =~= seg_views(v.drop_last()));
        assert(seg_views(v.filter(nonempty_seg())) =~= seg_views(v).filter(nonempty_view()));
    } else { lemma_filter_none(v, nonempty_seg()); lemma_filter_none(seg_views(v), nonempty_view()); assert(seg_views(v.filter(nonempty_seg())) =~= seg_views(v).filter(nonempty_view())); }
}
/// Filtering the segments is filtering their texts.
proof fn lemma_filter_segs(v: Seq<PathSeg>, t: Seq<Seq<char>>)
    requires v.len() == t.len(), forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).view() == parse_seg(t[i]),
    ensures seg_views(v.filter(nonempty_seg())) == t.filter(nonempty_text()).map_values(parser()),
    decreases v.len(),
{
    reveal_strlit("."); reveal_strlit("..");
    if v.len() > 0 {
        lemma_filter_segs(v.drop_last(), t.drop_last());
        lemma_filter_step(v, nonempty_seg()); lemma_filter_step(t, nonempty_text());
        assert(v.last().view() == parse_seg(t.last()));
        assert("."@.len() == 1 && ".."@.len() == 2);
        let (a, b) = (v.drop_last().filter(nonempty_seg()), t.drop_last().filter(nonempty_text()));
        assert(seg_views(a.push(v.last())) =~= seg_views(a).push(v.last().view()));
        assert(b.push(t.last()).map_values(parser()) =~= b.map_values(parser()).push(parse_seg(t.last())));
        assert(nonempty_seg()(v.last()) == nonempty_text()(t.last()));
        assert(seg_views(v.filter(nonempty_seg())) =~= t.filter(nonempty_text()).map_values(parser()));
    } else { lemma_filter_none(v, nonempty_seg()); lemma_filter_none(t, nonempty_text()); assert(seg_views(v.filter(nonempty_seg())) =~= t.filter(nonempty_text()).map_values(parser())); }
}
/// [C05] Printing and parsing: an equal path.
pub proof fn theorem_round_trip(s: Seq<SegView>, abs: bool)
    requires forall|i: int| 0 <= i < s.len() ==> plain_seg(#[trigger] s[i]),
    ensures parsed(printed(s, abs)) == s, absolute(printed(s, abs)) == abs,
{
    let j = joined(s); let texts = s.map_values(|x: SegView| seg_text(x));
    assert(split_at(j, '/').filter(nonempty_text()) == texts && !absolute(j)) by {
        if s.len() == 0 {
            let one = seq![Seq::<char>::empty()];
            assert(split_at(j, '/') == one);
            assert(one.drop_last() =~= Seq::empty());
            lemma_filter_step(one, nonempty_text()); lemma_filter_none(one.drop_last(), nonempty_text());
            assert(split_at(j, '/').filter(nonempty_text()) =~= texts);
        } else {
            lemma_split_joined(s);
            assert forall|i: int| 0 <= i < texts.len() implies nonempty_text()(#[trigger] texts[i]) by { lemma_seg_text(s[i]); }
            lemma_filter_all(texts, nonempty_text());
            if absolute(j) { assert(split_at(j, '/')[0].len() == 0); assert(texts[0].len() == 0); }
        }
    }
    assert(texts.map_values(parser()) =~= s) by { assert forall|i: int| 0 <= i < s.len() implies parser()(#[trigger] texts[i]) == s[i] by { lemma_seg_text(s[i]); } }
    if abs {
        let w = seq!['/'] + j;
        assert(w.drop_first() =~= j);
        lemma_filter_first(split_at(w, '/'), nonempty_text());
        assert(split_at(w, '/').drop_first() =~= split_at(j, '/'));
    }
}

impl PathSeg {
    pub open spec fn view(&self) -> SegView { match self { PathSeg::Node(t) => SegView::Node(t@), PathSeg::This => SegView::This, PathSeg::Parent => SegView::Parent } }
//@ fn structs/node_path.rs PathSeg::parse | mcall=into=>str_into_box
    ensures ret.view() == parse_seg(input@),
//@ end
//@ fn structs/node_path.rs PathSeg::is_empty_identifier | mcall=is_empty=>box_is_empty
    ensures ret == !nonempty_seg()(*self),
//@ end
//@ fn structs/node_path.rs PathSeg::to_string | mcall=to_string=>&:to_text
    ensures ret@ == seg_text(self.view()),
//@ end
}
impl NodePath {
    pub open spec fn segs(&self) -> Seq<SegView> { seg_views(self.path@) }
//@ fn structs/node_path.rs NodePath::new
    ensures ret.segs().len() == 0, !ret.abs,
//@ end
//@ fn structs/node_path.rs NodePath::new_abs
    ensures ret.segs().len() == 0, ret.abs,
//@ end
//@ fn structs/node_path.rs NodePath::from_str | mcall=starts_with=>str_starts_with
    ensures ret.segs() == parsed(str@), ret.abs == absolute(str@),
//@ loop 0 out=VecDeque<PathSeg> elem=s0[i0]
    invariant AUTO
        s0@.len() == split_at(str@, '/').len(),
        forall|i: int| 0 <= i < s0@.len() ==> (#[trigger] s0@[i])@ == split_at(str@, '/')[i],
        o0@.len() == k0, forall|i: int| 0 <= i < k0 ==> (#[trigger] o0@[i]).view() == parse_seg(split_at(str@, '/')[i]),
//@ hint before scan 0
    proof {
        let t = split_at(str@, '/');
        lemma_split_nonempty(str@);
        if abs {
            reveal_strlit("."); reveal_strlit("..");
            assert("."@.len() == 1 && ".."@.len() == 2);
            lemma_filter_first(t, nonempty_text());
            lemma_filter_segs(np.path@, t.drop_first());
        } else { lemma_filter_segs(np.path@, t); }
    }
//@ end
//@ fn structs/node_path.rs NodePath::to_string | strplus mcall=pop=>&mut:str_pop
    ensures ret@ == printed(self.segs(), self.abs),
//@ hint beforeloop 0
    let ghost whole = me.segs(); let ghost abs0 = me.abs; let ghost mut n: int = 0;
    proof { assert(whole.skip(0) =~= whole); assert(whole.take(0) =~= Seq::empty()); }
//@ loop 0
    invariant 0 <= n <= whole.len(), me.segs() == whole.skip(n), out@ == slashed(whole.take(n)), me.abs == abs0,
    ensures me.segs().len() == 0, out@ == slashed(whole), me.abs == abs0,
    decreases me.path@.len(),
//@ hint afterloop 0
    proof { reveal_strlit("/"); assert("/"@ =~= seq!['/']); }
//@ hint loopstart 0
    let ghost before = me.segs(); proof { assert(whole.take(whole.len() as int) =~= whole); }
//@ hint after to_string 0
    proof {
        assert(before.len() == whole.len() - n);
        assert(me.segs() =~= before.drop_first());
        reveal_strlit("/"); assert("/"@ =~= seq!['/']);
        assert(segment.view() == before[0]);
        assert(whole.take(n + 1).drop_last() =~= whole.take(n));
        assert(me.segs() =~= whole.skip(n + 1));
        assert(segment.view() == whole[n]);
        assert(out@ =~= slashed(whole.take(n + 1)));
        n = n + 1;
    }
//@ end
//@ fn structs/node_path.rs NodePath::add_node
    ensures final(self).abs == old(self).abs, final(self).segs() == old(self).segs().push(parse_seg(node_name@)).filter(nonempty_view()),
//@ hint before scan 0
    proof { lemma_filter_views(self.path@); assert(self.segs() =~= old(self).segs().push(parse_seg(node_name@))); }
//@ end
//@ fn structs/node_path.rs NodePath::pop_front
    ensures
        final(self).abs == old(self).abs,
        ret == (if old(self).path@.len() == 0 { None } else { Some(old(self).path@[0]) }),
        final(self).path@ == (if old(self).path@.len() == 0 { old(self).path@ } else { old(self).path@.drop_first() }),
//@ end
//@ optmap on
//@ fn structs/node_path.rs NodePath::pop_front_as_string
    ensures
        final(self).abs == old(self).abs,
        final(self).path@ == (if old(self).path@.len() == 0 { old(self).path@ } else { old(self).path@.drop_first() }),
        ret.is_some() == (old(self).path@.len() > 0),
        ret.is_some() ==> ret.unwrap()@ == seg_text(old(self).path@[0].view()),
//@ end
//@ optmap off
//@ fn structs/node_path.rs NodePath::is_absolute
    ensures ret == self.abs,
//@ end
//@ fn structs/node_path.rs NodePath::scan | mcall=retain=>&mut:deque_retain
    ensures final(self).abs == old(self).abs, final(self).path@ == old(self).path@.filter(nonempty_seg()),
//@ closure 0 seg: &PathSeg -> r: bool
    ensures r == nonempty_seg()(*seg),
//@ end
}
/// [C05] The round trip on the code itself.
pub fn round_trip(p: NodePath) -> (q: NodePath)
    requires forall|i: int| 0 <= i < p.segs().len() ==> plain_seg(#[trigger] p.segs()[i]),
    ensures q.segs() == p.segs(), q.abs == p.abs,
{
    proof { theorem_round_trip(p.segs(), p.abs); }
    let t = p.to_string();
    NodePath::from_str(t.as_str())
}
