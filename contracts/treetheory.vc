// Trees as maps from ids to links: what the tree functions are specified with.
pub type Id = u64;
pub ghost struct Link { pub parent: Option<Id>, pub owner: Option<Id>, pub kids: Seq<Id>, pub depth: int }
pub type Links = Map<Id, Link>;
pub spec const MAXD: int = 0x1_0000_0000_0000_0000;

pub open spec fn child_ok(m: Links, r: Id, c: Id) -> bool { m.contains_key(c) && m[c].parent == Some(r) && m[c].depth == m[r].depth + 1 }
pub open spec fn up_ok(m: Links, r: Id) -> bool {
    &&& match m[r].parent { None => r == 0, Some(p) => r != 0 && m.contains_key(p) && m[p].kids.contains(r) }
    &&& m[r].owner is Some
    &&& m[r].owner == Some(r) || (m[r].parent matches Some(p) && m[r].owner == m[p].owner)
}
pub open spec fn down_ok(m: Links, r: Id) -> bool {
    &&& m[r].kids.no_duplicates()
    &&& forall|i: int| 0 <= i < m[r].kids.len() ==> child_ok(m, r, #[trigger] m[r].kids[i])
    &&& 0 <= m[r].depth < MAXD
}
/// The links of a consistent tree.
pub open spec fn tree_ok(m: Links) -> bool { forall|r: Id| #[trigger] m.contains_key(r) ==> up_ok(m, r) && down_ok(m, r) && m.contains_key(0) }

/// The ancestor of x at depth d (x itself if it is not deeper).
pub open spec fn up_to(m: Links, x: Id, d: int) -> Id
    decreases m[x].depth when m[x].depth >= 0
{
    if m[x].depth <= d { x } else { match m[x].parent { Some(p) => if m.contains_key(p) && 0 <= m[p].depth < m[x].depth { up_to(m, p, d) } else { x }, None => x } }
}
/// x is a itself or below it.
pub open spec fn anc(m: Links, a: Id, x: Id) -> bool { m.contains_key(x) && m[x].depth >= m[a].depth && up_to(m, x, m[a].depth) == a }
/// A node, then its branches in child order.
pub open spec fn pre(m: Links, r: Id) -> Seq<Id>
    decreases MAXD - m[r].depth, 0nat when m[r].depth < MAXD
{ seq![r] + pre_list(m, m[r].kids, m[r].depth + 1) }
pub open spec fn pre_list(m: Links, s: Seq<Id>, d: int) -> Seq<Id>
    decreases MAXD - d, s.len() + 1 when d <= MAXD
{
    if s.len() == 0 || d >= MAXD { seq![] } else { (if m[s[0]].depth == d { pre(m, s[0]) } else { seq![] }) + pre_list(m, s.drop_first(), d) }
}
/// The children of all nodes of a layer.
pub open spec fn next(m: Links, s: Seq<Id>) -> Seq<Id>
    decreases s.len()
{ if s.len() == 0 { seq![] } else { next(m, s.drop_last()) + m[s.last()].kids } }
/// Everything below a layer of depth d, layer by layer.
pub open spec fn levels(m: Links, s: Seq<Id>, d: int) -> Seq<Id>
    decreases MAXD - d when d <= MAXD
{ let n = next(m, s); if n.len() == 0 || d >= MAXD { seq![] } else { n + levels(m, n, d + 1) } }
pub open spec fn below(m: Links, r: Id) -> Seq<Id> { levels(m, seq![r], m[r].depth) }

pub proof fn lemma_up_to(m: Links, x: Id, d: int)
    requires tree_ok(m), m.contains_key(x), m[0].depth <= d,
    ensures m.contains_key(up_to(m, x, d)), d <= m[x].depth ==> m[up_to(m, x, d)].depth == d, m[0].depth <= m[x].depth,
    decreases m[x].depth,
{
    assert(up_ok(m, x) && down_ok(m, x));
    if let Some(p) = m[x].parent {
        assert(up_ok(m, p) && down_ok(m, p));
        let i = choose|i: int| 0 <= i < m[p].kids.len() && m[p].kids[i] == x;
        assert(child_ok(m, p, m[p].kids[i]));
        lemma_up_to(m, p, d);
    }
}
pub proof fn lemma_up_step(m: Links, x: Id, d: int)
    requires tree_ok(m), m.contains_key(x), m[0].depth <= d < m[x].depth,
    ensures m[up_to(m, x, d + 1)].parent == Some(up_to(m, x, d)), m.contains_key(up_to(m, x, d)), m.contains_key(up_to(m, x, d + 1)), m[up_to(m, x, d)].kids.contains(up_to(m, x, d + 1)),
    decreases m[x].depth,
{
    lemma_up_to(m, x, d); lemma_up_to(m, x, d + 1);
    assert(up_ok(m, x) && down_ok(m, x));
    lemma_up_to(m, 0, m[0].depth);
    assert(up_ok(m, up_to(m, x, d + 1)));
    match m[x].parent {
        None => { assert(x == 0); assert(false); }
        Some(p) => {
            assert(up_ok(m, p) && down_ok(m, p));
            let i = choose|i: int| 0 <= i < m[p].kids.len() && m[p].kids[i] == x;
            assert(child_ok(m, p, m[p].kids[i]));
            if m[x].depth == d + 1 { assert(up_to(m, x, d + 1) == x); assert(up_to(m, p, d) == p); assert(up_to(m, x, d) == up_to(m, p, d)); }
            else { lemma_up_step(m, p, d); }
        }
    }
}
/// The parent's data, and that the parent lists the node.
pub proof fn lemma_parent(m: Links, x: Id)
    requires tree_ok(m), m.contains_key(x), m[x].parent is Some,
    ensures m.contains_key(m[x].parent->0), m[x].depth == m[m[x].parent->0].depth + 1, m[m[x].parent->0].kids.contains(x),
{
    assert(up_ok(m, x));
    let p = m[x].parent->0;
    assert(down_ok(m, p));
    let i = choose|i: int| 0 <= i < m[p].kids.len() && m[p].kids[i] == x;
    assert(child_ok(m, p, m[p].kids[i]));
}
pub proof fn lemma_kid(m: Links, r: Id, c: Id)
    requires tree_ok(m), m.contains_key(r), m[r].kids.contains(c),
    ensures child_ok(m, r, c), m[c].depth < MAXD, c != r, c != 0,
{
    assert(down_ok(m, r));
    let i = choose|i: int| 0 <= i < m[r].kids.len() && m[r].kids[i] == c;
    assert(child_ok(m, r, m[r].kids[i]));
    assert(down_ok(m, c) && up_ok(m, c));
}
pub proof fn lemma_anc_root(m: Links, x: Id)
    requires tree_ok(m), m.contains_key(x),
    ensures anc(m, 0, x),
    decreases m[x].depth,
{
    assert(up_ok(m, x) && down_ok(m, x) && up_ok(m, 0) && down_ok(m, 0));
    lemma_up_to(m, x, m[0].depth);
    let y = up_to(m, x, m[0].depth);
    assert(up_ok(m, y) && down_ok(m, y));
    if y != 0 { lemma_parent(m, y); lemma_up_to(m, m[y].parent->0, m[0].depth); assert(false); }
}
/// x is below r exactly if it is r or below a child.
pub proof fn lemma_anc_step(m: Links, r: Id, x: Id)
    requires tree_ok(m), m.contains_key(r), m.contains_key(x),
    ensures anc(m, r, x) <==> x == r || (m[x].depth > m[r].depth && m[r].kids.contains(up_to(m, x, m[r].depth + 1))),
{
    lemma_up_to(m, r, m[0].depth);
    assert(down_ok(m, r) && down_ok(m, x));
    if m[x].depth > m[r].depth {
        lemma_up_step(m, x, m[r].depth);
        let c = up_to(m, x, m[r].depth + 1);
        if m[r].kids.contains(c) { lemma_kid(m, r, c); }
    }
}
pub proof fn lemma_anc_kid(m: Links, r: Id, c: Id)
    requires tree_ok(m), m.contains_key(r), m[r].kids.contains(c),
    ensures anc(m, r, c),
{ lemma_kid(m, r, c); lemma_anc_step(m, r, c); }
pub proof fn lemma_up_up(m: Links, x: Id, d: int, e: int)
    requires tree_ok(m), m.contains_key(x), m[0].depth <= d <= e,
    ensures up_to(m, up_to(m, x, e), d) == up_to(m, x, d),
    decreases m[x].depth,
{
    assert(down_ok(m, x));
    lemma_up_to(m, x, e);
    if m[x].depth > e { match m[x].parent { Some(p) => { lemma_parent(m, x); assert(down_ok(m, p)); lemma_up_up(m, p, d, e); } None => {} } }
}
pub proof fn lemma_anc_trans(m: Links, a: Id, b: Id, x: Id)
    requires tree_ok(m), m.contains_key(a), anc(m, a, b), anc(m, b, x),
    ensures anc(m, a, x),
{ lemma_up_to(m, a, m[0].depth); lemma_up_up(m, x, m[a].depth, m[b].depth); }

pub proof fn lemma_pre(m: Links, r: Id)
    requires tree_ok(m), m.contains_key(r),
    ensures
        forall|x: Id| #[trigger] pre(m, r).contains(x) <==> m.contains_key(x) && anc(m, r, x),
        pre(m, r).no_duplicates(), pre(m, r)[0] == r,
    decreases MAXD - m[r].depth, 0nat,
{
    assert(down_ok(m, r));
    let d = m[r].depth + 1;
    let l = pre_list(m, m[r].kids, d);
    assert forall|i: int| 0 <= i < m[r].kids.len() implies m.contains_key(#[trigger] m[r].kids[i]) && m[m[r].kids[i]].depth == d by { assert(child_ok(m, r, m[r].kids[i])); }
    lemma_up_to(m, r, m[0].depth);
    lemma_pre_list(m, m[r].kids, d);
    assert(pre(m, r) =~= seq![r] + l);
    assert forall|x: Id| #[trigger] pre(m, r).contains(x) <==> m.contains_key(x) && anc(m, r, x) by {
        if m.contains_key(x) { lemma_anc_step(m, r, x); }
        if pre(m, r).contains(x) { let i = choose|i: int| 0 <= i < pre(m, r).len() && pre(m, r)[i] == x; if i > 0 { assert(l[i - 1] == x); assert(l.contains(x)); } else { lemma_anc_step(m, r, r); } }
        if m.contains_key(x) && anc(m, r, x) { if x == r { assert(pre(m, r)[0] == x); } else { assert(l.contains(x)); let i = choose|i: int| 0 <= i < l.len() && l[i] == x; assert(pre(m, r)[i + 1] == x); } }
    }
    assert(!l.contains(r));
    assert forall|i: int, j: int| 0 <= i < j < pre(m, r).len() implies pre(m, r)[i] != pre(m, r)[j] by { assert(l[j - 1] == pre(m, r)[j]); if i == 0 { if pre(m, r)[j] == r { assert(l.contains(r)); } } else { assert(l[i - 1] == pre(m, r)[i]); } }
}
pub proof fn lemma_pre_list(m: Links, s: Seq<Id>, d: int)
    requires tree_ok(m), s.no_duplicates(), m[0].depth <= d <= MAXD, forall|i: int| 0 <= i < s.len() ==> m.contains_key(#[trigger] s[i]) && m[s[i]].depth == d,
    ensures
        forall|x: Id| #[trigger] pre_list(m, s, d).contains(x) <==> m.contains_key(x) && m[x].depth >= d && s.contains(up_to(m, x, d)),
        pre_list(m, s, d).no_duplicates(),
    decreases MAXD - d, s.len() + 1,
{
    if s.len() > 0 { assert(down_ok(m, s[0])); }
    if s.len() == 0 { }
    else {
        let (a, t) = (pre(m, s[0]), s.drop_first());
        let b = pre_list(m, t, d);
        lemma_pre(m, s[0]);
        assert forall|i: int| 0 <= i < t.len() implies m.contains_key(#[trigger] t[i]) && m[t[i]].depth == d by { assert(t[i] == s[i + 1]); }
        lemma_pre_list(m, t, d);
        assert(pre_list(m, s, d) =~= a + b);
        lemma_pre_split(m, s, t, a, b, d);
    }
}
proof fn lemma_pre_split(m: Links, s: Seq<Id>, t: Seq<Id>, a: Seq<Id>, b: Seq<Id>, d: int)
    requires s.len() > 0, t == s.drop_first(), s.no_duplicates(), m[s[0]].depth == d,
        forall|x: Id| #[trigger] a.contains(x) <==> m.contains_key(x) && anc(m, s[0], x),
        forall|x: Id| #[trigger] b.contains(x) <==> m.contains_key(x) && m[x].depth >= d && t.contains(up_to(m, x, d)),
        a.no_duplicates(), b.no_duplicates(),
    ensures
        forall|x: Id| #[trigger] (a + b).contains(x) <==> m.contains_key(x) && m[x].depth >= d && s.contains(up_to(m, x, d)),
        (a + b).no_duplicates(),
{
    hide(up_to);
    assert forall|x: Id| s.contains(x) <==> x == s[0] || t.contains(x) by {
        if s.contains(x) { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; if i > 0 { assert(t[i - 1] == x); } }
        if t.contains(x) { let i = choose|i: int| 0 <= i < t.len() && t[i] == x; assert(s[i + 1] == x); }
    }
    assert(!t.contains(s[0])) by { if t.contains(s[0]) { let i = choose|i: int| 0 <= i < t.len() && t[i] == s[0]; assert(s[i + 1] == s[0]); } }
    assert forall|x: Id| #[trigger] (a + b).contains(x) <==> m.contains_key(x) && m[x].depth >= d && s.contains(up_to(m, x, d)) by {
        lemma_contains_add(a, b, x);
        if a.contains(x) { assert(m.contains_key(x) && anc(m, s[0], x)); }
        if b.contains(x) { assert(t.contains(up_to(m, x, d))); }
        if m.contains_key(x) && m[x].depth >= d && s.contains(up_to(m, x, d)) { if up_to(m, x, d) == s[0] { assert(a.contains(x)); } else { assert(t.contains(up_to(m, x, d))); assert(b.contains(x)); } }
    }
    assert forall|i: int, j: int| 0 <= i < j < (a + b).len() implies (a + b)[i] != (a + b)[j] by {
        if i < a.len() && j >= a.len() { assert(b[j - a.len()] == (a + b)[j]); assert(a.contains(a[i])); assert(b.contains(b[j - a.len()])); }
    }
}
pub proof fn lemma_contains_add<A>(a: Seq<A>, b: Seq<A>, x: A)
    ensures (a + b).contains(x) <==> a.contains(x) || b.contains(x),
{
    if a.contains(x) { let i = choose|i: int| 0 <= i < a.len() && a[i] == x; assert((a + b)[i] == x); }
    if b.contains(x) { let i = choose|i: int| 0 <= i < b.len() && b[i] == x; assert((a + b)[i + a.len()] == x); }
    if (a + b).contains(x) { let i = choose|i: int| 0 <= i < (a + b).len() && (a + b)[i] == x; if i < a.len() { assert(a[i] == x); } else { assert(b[i - a.len()] == x); } }
}
pub open spec fn layer_ok(m: Links, s: Seq<Id>, d: int) -> bool { s.no_duplicates() && m[0].depth <= d < MAXD && forall|i: int| 0 <= i < s.len() ==> m.contains_key(#[trigger] s[i]) && m[s[i]].depth == d }
pub proof fn lemma_next(m: Links, s: Seq<Id>, d: int)
    requires tree_ok(m), layer_ok(m, s, d),
    ensures
        next(m, s).len() > 0 ==> layer_ok(m, next(m, s), d + 1),
        forall|x: Id| #[trigger] next(m, s).contains(x) <==> m.contains_key(x) && (m[x].parent matches Some(p) && s.contains(p)),
    decreases s.len(),
{
    if s.len() > 0 {
        let (t, c) = (s.drop_last(), s.last());
        assert forall|i: int| 0 <= i < t.len() implies m.contains_key(#[trigger] t[i]) && m[t[i]].depth == d by { assert(t[i] == s[i]); }
        lemma_next(m, t, d);
        let (a, b) = (next(m, t), m[c].kids);
        assert(down_ok(m, c));
        assert(next(m, s) =~= a + b);
        assert forall|x: Id| s.contains(x) <==> x == c || t.contains(x) by {
            if s.contains(x) { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; if i < t.len() { assert(t[i] == x); } }
            if t.contains(x) { let i = choose|i: int| 0 <= i < t.len() && t[i] == x; assert(s[i] == x); }
            if x == c { assert(s[s.len() - 1] == x); }
        }
        assert(!t.contains(c)) by { if t.contains(c) { let i = choose|i: int| 0 <= i < t.len() && t[i] == c; assert(s[i] == c); } }
        assert forall|x: Id| #[trigger] b.contains(x) <==> m.contains_key(x) && m[x].parent == Some(c) by {
            if b.contains(x) { lemma_kid(m, c, x); }
            if m.contains_key(x) && m[x].parent == Some(c) { lemma_parent(m, x); }
        }
        assert forall|x: Id| #[trigger] next(m, s).contains(x) <==> m.contains_key(x) && (m[x].parent matches Some(p) && s.contains(p)) by { lemma_contains_add(a, b, x); }
        assert forall|i: int, j: int| 0 <= i < j < (a + b).len() implies (a + b)[i] != (a + b)[j] by {
            if i < a.len() && j >= a.len() { assert(b[j - a.len()] == (a + b)[j]); assert(a.contains(a[i])); assert(b.contains(b[j - a.len()])); }
        }
        let n = next(m, s);
        assert forall|i: int| 0 <= i < n.len() implies m.contains_key(#[trigger] n[i]) && m[n[i]].depth == d + 1 by { assert(n.contains(n[i])); lemma_parent(m, n[i]); let j = choose|j: int| 0 <= j < s.len() && s[j] == m[n[i]].parent->0; }
        if n.len() > 0 { assert(m.contains_key(n[0])); assert(down_ok(m, n[0])); }
    }
}
/// Level by level: each node below the layer exactly once.
pub proof fn lemma_levels(m: Links, s: Seq<Id>, d: int)
    requires tree_ok(m), layer_ok(m, s, d),
    ensures
        forall|x: Id| #[trigger] levels(m, s, d).contains(x) <==> m.contains_key(x) && m[x].depth > d && s.contains(up_to(m, x, d)),
        levels(m, s, d).no_duplicates(),
    decreases MAXD - d,
{
    lemma_next(m, s, d);
    let n = next(m, s);
    if n.len() > 0 {
        lemma_levels(m, n, d + 1);
        let b = levels(m, n, d + 1);
        assert(levels(m, s, d) =~= n + b);
        assert forall|i: int, j: int| 0 <= i < j < (n + b).len() implies (n + b)[i] != (n + b)[j] by {
            if i < n.len() && j >= n.len() { assert(b[j - n.len()] == (n + b)[j]); assert(m[n[i]].depth == d + 1); assert(b.contains(b[j - n.len()])); }
        }
    } else { assert(levels(m, s, d) =~= Seq::<Id>::empty()); }
    assert forall|x: Id| #[trigger] levels(m, s, d).contains(x) <==> m.contains_key(x) && m[x].depth > d && s.contains(up_to(m, x, d)) by {
        if n.len() > 0 { lemma_contains_add(n, levels(m, n, d + 1), x); }
        if m.contains_key(x) {
            assert(down_ok(m, x));
            if m[x].depth > d {
                lemma_up_step(m, x, d);
                assert(n.contains(up_to(m, x, d + 1)) <==> s.contains(up_to(m, x, d)));
                if m[x].depth == d + 1 { assert(up_to(m, x, d + 1) == x); }
            }
            if n.contains(x) { lemma_parent(m, x); let j = choose|j: int| 0 <= j < n.len() && n[j] == x; assert(m[n[j]].depth == d + 1); }
        }
    }
}
pub proof fn lemma_below(m: Links, r: Id)
    requires tree_ok(m), m.contains_key(r),
    ensures
        below(m, r).no_duplicates(), !below(m, r).contains(r),
        forall|x: Id| #[trigger] below(m, r).contains(x) <==> x != r && m.contains_key(x) && anc(m, r, x),
        (seq![r] + below(m, r)).no_duplicates(),
        forall|x: Id| #[trigger] (seq![r] + below(m, r)).contains(x) <==> m.contains_key(x) && anc(m, r, x),
{
    assert(down_ok(m, r));
    lemma_up_to(m, r, m[0].depth);
    let s = seq![r];
    lemma_levels(m, s, m[r].depth);
    assert forall|x: Id| s.contains(x) <==> x == r by { if x == r { assert(s[0] == x); } }
    assert forall|x: Id| #[trigger] below(m, r).contains(x) <==> x != r && m.contains_key(x) && anc(m, r, x) by { if m.contains_key(x) { lemma_anc_step(m, r, x); assert(down_ok(m, x)); } }
    let b = below(m, r);
    assert forall|i: int, j: int| 0 <= i < j < (s + b).len() implies (s + b)[i] != (s + b)[j] by { assert(b[j - 1] == (s + b)[j]); assert(b.contains(b[j - 1])); if i > 0 { assert(b[i - 1] == (s + b)[i]); } }
    assert forall|x: Id| #[trigger] (s + b).contains(x) <==> m.contains_key(x) && anc(m, r, x) by { lemma_contains_add(s, b, x); lemma_anc_step(m, r, r); }
}
