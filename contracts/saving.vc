// Saving scenes to text and loading them.
//@ const structs/node_scene.rs SCN_COMMENT
pub type FieldMap = Vec<(String, FieldBox)>;
//@ hmethods clone_as_instance update_internal set_name_unchecked set_rid rid name scene_copy
//@ hfns node_registry::deserialize scene_copy:mut
/// The encoded values of a node's exported fields, by name, and the state they stand for.
pub uninterp spec fn stored(p: NodePtr) -> Map<Seq<char>, Value>;
pub ghost struct State { pub s: int }
pub uninterp spec fn state(p: NodePtr) -> State;
/// What the class registered under a name makes of encoded values.
pub uninterp spec fn revived(kind: Seq<char>, fields: Map<Seq<char>, Value>) -> Option<State>;
/// #[derive(NodeSys)], with the encoders of C14: a class reads what it writes.
pub axiom fn axiom_revived(p: NodePtr) ensures revived(type_of(p), stored(p)) == Some(state(p));
pub axiom fn axiom_cloned(p: NodePtr, q: NodePtr) requires cloned(p, q) ensures stored(p) == stored(q), state(p) == state(q);
/// An exported field with its value.
pub struct FieldBox { pub ghost_export: bool, pub encoded: Value }
impl FieldBox {
    pub fn is_ghost_export(&self) -> (ret: bool) ensures ret == self.ghost_export, { self.ghost_export }
    pub fn to_value(&self) -> (ret: Value) ensures ret == self.encoded, { self.encoded.clone() }
}
/// The fields that are saved, in some order.
pub open spec fn fields_of(l: Seq<(String, FieldBox)>, m: Map<Seq<char>, Value>) -> bool {
    &&& forall|i: int| 0 <= i < l.len() && !l[i].1.ghost_export ==> m.contains_key((#[trigger] l[i]).0@) && m[l[i].0@] == l[i].1.encoded
    &&& forall|i: int, j: int| 0 <= i < j < l.len() ==> (#[trigger] l[i]).0@ != (#[trigger] l[j]).0@
    &&& forall|k: Seq<char>| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < l.len() && (#[trigger] l[i]).0@ == k && !l[i].1.ghost_export
}
impl NodePtr {
    #[verifier::external_body]
    pub fn save_from_owned(self) -> (ret: Vec<(String, FieldBox)>) ensures fields_of(ret@, stored(self)), { unimplemented!() }
}
pub open spec fn digits(n: u64) -> Seq<char> { displayed::<u64>(&n) }
/// Numbers print as digits and parse back.
pub axiom fn axiom_digits(n: u64) ensures parsed_u64(digits(n)) == Some(n), !digits(n).contains('_');
pub open spec fn key_of(name: Seq<char>, n: u64) -> Seq<char> { name + seq!['_'] + digits(n) }
/// A key ends in one way.
proof fn lemma_key(a: Seq<char>, b: Seq<char>, c: Seq<char>, d: Seq<char>)
    requires a + seq!['_'] + b == c + seq!['_'] + d, !b.contains('_'), !d.contains('_'),
    ensures a == c, b == d,
{
    let (x, y) = (a + seq!['_'] + b, c + seq!['_'] + d);
    assert(x.len() == y.len());
    if b.len() < d.len() { let i = x.len() - 1 - b.len(); assert(x[i] == '_'); assert(y[i] == d[i - c.len() - 1]); assert(d.contains('_')); }
    if d.len() < b.len() { let i = y.len() - 1 - d.len(); assert(y[i] == '_'); assert(x[i] == b[i - a.len() - 1]); assert(b.contains('_')); }
    assert(b =~= x.skip(a.len() as int + 1)); assert(d =~= y.skip(c.len() as int + 1));
    assert(a =~= x.take(a.len() as int)); assert(c =~= y.take(c.len() as int));
}
proof fn lemma_keys_differ(a: Seq<char>, m: u64, c: Seq<char>, n: u64)
    requires key_of(a, m) == key_of(c, n),
    ensures m == n,
{ axiom_digits(m); axiom_digits(n); lemma_key(a, digits(m), c, digits(n)); }
/// A saved node.
pub ghost struct Row { pub name: Seq<char>, pub rid: u64, pub kind: Seq<char>, pub owner: bool, pub parent: Option<u64>, pub fields: Map<Seq<char>, Value> }
pub open spec fn row_for(v: Visit, m: Nodes) -> Row {
    Row { name: m[v.1].name@, rid: m[v.1].rid, kind: type_of(v.1), owner: v.2, parent: match v.0 { Some(q) => Some(m[q].rid), None => None }, fields: stored(v.1) }
}
/// What an entry of a document says.
pub open spec fn row_of(e: (Seq<char>, toml::Item), r: Row) -> bool {
    &&& split_key(e.0, r.name, r.rid)
    &&& toml::inner(e.1, "metadata"@) matches Some(m) && meta_of(m, r.kind, r.owner, r.parent)
    &&& plain_fields(e.1->Table_0@) && field_values(e.1->Table_0@) == r.fields
}
pub open spec fn split_key(k: Seq<char>, name: Seq<char>, n: u64) -> bool { exists|d: Seq<char>| k == #[trigger] (name + seq!['_'] + d) && !d.contains('_') && parsed_u64(d) == Some(n) }
pub open spec fn meta_of(m: Map<Seq<char>, Value>, kind: Seq<char>, owner: bool, parent: Option<u64>) -> bool {
    &&& m.contains_key("type_name"@) && (m["type_name"@] matches Value::String(x) && x.value@ == kind)
    &&& m.contains_key("is_owner"@) && (m["is_owner"@] matches Value::Boolean(x) && x.value == owner)
    &&& parent == (if m.contains_key("parent"@) { match m["parent"@] { Value::Integer(x) => Some(x.value as u64), _ => None } } else { None })
}
pub open spec fn plain_fields(t: Map<Seq<char>, toml::Item>) -> bool { forall|k: Seq<char>| #[trigger] t.contains_key(k) && k != "metadata"@ ==> t[k] is Value }
pub open spec fn field_values(t: Map<Seq<char>, toml::Item>) -> Map<Seq<char>, Value> { Map::new(t.dom().remove("metadata"@), |k: Seq<char>| t[k]->Value_0) }
/// The document has one entry per visited node, in order.
pub open spec fn records(d: Seq<(Seq<char>, toml::Item)>, v: Seq<Visit>, m: Nodes) -> bool { d.len() == v.len() && forall|i: int| 0 <= i < v.len() ==> row_of(#[trigger] d[i], row_for(v[i], m)) }

// A copy has the rows of the original.
proof fn lemma_copied_rows(s: NodeScene, r: NodeScene, a: Nodes, b: Nodes, k: int)
    requires copied(s, r, a, b), 0 <= k <= s.children@.len(),
    ensures
        beneath(s, k).len() == beneath(r, k).len(),
        forall|i: int| 0 <= i < beneath(s, k).len() ==> row_for(#[trigger] beneath(r, k)[i], b) == row_for(beneath(s, k)[i], a),
    decreases s, k,
{
    axiom_cloned(r.this, s.this);
    if k > 0 {
        let (c, e) = (s.children@[k - 1], r.children@[k - 1]);
        lemma_copied_rows(s, r, a, b, k - 1); assert(copied(c, e, a, b)); lemma_copied_rows(c, e, a, b, c.children@.len() as int); axiom_cloned(e.this, c.this);
        let (u, w) = (beneath(s, k - 1), beneath(r, k - 1)); let n = u.len() as int;
        assert forall|i: int| 0 <= i < beneath(s, k).len() implies row_for(#[trigger] beneath(r, k)[i], b) == row_for(beneath(s, k)[i], a) by {
            if i < n { assert(beneath(r, k)[i] == w[i] && beneath(s, k)[i] == u[i]); }
            else if i > n { assert(beneath(r, k)[i] == all_beneath(e)[i - n - 1] && beneath(s, k)[i] == all_beneath(c)[i - n - 1]); }
        }
    }
}
/// A whole scene.
proof fn lemma_copied_scene(s: NodeScene, r: NodeScene, a: Nodes, b: Nodes)
    requires copied(s, r, a, b),
    ensures visits_of(s).len() == visits_of(r).len(), forall|i: int| 0 <= i < visits_of(s).len() ==> row_for(#[trigger] visits_of(r)[i], b) == row_for(visits_of(s)[i], a),
{
    lemma_copied_rows(s, r, a, b, s.children@.len() as int); axiom_cloned(r.this, s.this);
    let (v, w) = (visits_of(s), visits_of(r));
    assert forall|i: int| 0 <= i < v.len() implies row_for(#[trigger] w[i], b) == row_for(v[i], a) by { if i > 0 { assert(v[i] == all_beneath(s)[i - 1] && w[i] == all_beneath(r)[i - 1]); } }
}
pub fn scene_copy(s: &NodeScene, h: &mut NodeTreeBase) -> (ret: NodeScene)
    requires placed(old(h), visits_of(*s)),
    ensures copied(*s, ret, old(h).mem@, final(h).mem@), made(old(h), final(h), visits_of(ret)),
{ s.clone(h) }
/// From a the visited nodes got their positions as ids, and other nodes were made. Nothing else differs.
pub open spec fn positioned(a: &NodeTreeBase, b: &NodeTreeBase, v: Seq<Visit>) -> bool {
    &&& a.but_mem(b) && placed(b, v)
    &&& forall|p: NodePtr| #[trigger] a.mem@.contains_key(p) ==> b.mem@.contains_key(p) && (!came(v, p) ==> b.mem@[p] == a.mem@[p])
    &&& forall|i: int| 0 <= i < v.len() ==> b.mem@[(#[trigger] v[i]).1] == (NodeBase { rid: i as u64, ..a.mem@[v[i].1] })
}
/// A text that says what a scene is.
pub open spec fn tells(t: Seq<char>, s: NodeScene, m: Nodes) -> bool { parsed_doc(t) matches Some(d) && records(d@, visits_of(s), m) }
/// No class exports a field called metadata (known finding).
pub open spec fn plain_classes(v: Seq<Visit>) -> bool { forall|i: int| 0 <= i < v.len() ==> !stored((#[trigger] v[i]).1).contains_key("metadata"@) }
proof fn lemma_comment() ensures toml::comment(SCN_COMMENT@) { reveal_strlit("# This scene file was generated automatically via node_tree.\n# If you wish to modify it, ensure that children are in front of their parents.\n\n"); }
/// Marking nodes as loaded and making more changes no row.
pub open spec fn named_alike(v: Seq<Visit>, m: Nodes, n: Nodes) -> bool {
    forall|i: int| 0 <= i < v.len() ==> n[(#[trigger] v[i]).1].name == m[v[i].1].name && n[v[i].1].rid == m[v[i].1].rid
}
proof fn lemma_same_rows(s: NodeScene, m: Nodes, n: Nodes)
    requires named_alike(visits_of(s), m, n),
    ensures forall|i: int| 0 <= i < visits_of(s).len() ==> row_for(#[trigger] visits_of(s)[i], n) == row_for(visits_of(s)[i], m),
{
    let v = visits_of(s); let w = all_beneath(s);
    lemma_parents(s, s.children@.len() as int);
    assert forall|i: int| 0 <= i < v.len() implies row_for(#[trigger] v[i], n) == row_for(v[i], m) by {
        if i > 0 { assert(v[i] == w[i - 1]); let q = w[i - 1].0->0; if q == s.this { assert(v[0].1 == q); } else { let j = choose|j: int| 0 <= j < i - 1 && (#[trigger] w[j]).1 == q; assert(v[j + 1] == w[j]); } }
    }
}
/// The rows that are visited when a numbered scene is copied.
proof fn lemma_rows(a: &NodeTreeBase, s: NodeScene, b: &NodeTreeBase, cl: NodeScene, c: &NodeTreeBase, d: &NodeTreeBase)
    requires positioned(a, b, visits_of(s)), copied(s, cl, b.mem@, c.mem@), made(b, c, visits_of(cl)), marked(c, d, visits_of(cl), cl.saved()), visits_of(s).len() <= u64::MAX,
    ensures
        positioned(a, d, visits_of(s)), visits_of(cl).len() == visits_of(s).len(), placed(d, visits_of(cl)),
        forall|i: int| 0 <= i < visits_of(s).len() ==> row_for(#[trigger] visits_of(cl)[i], d.mem@) == row_for(visits_of(s)[i], d.mem@) && row_for(visits_of(s)[i], d.mem@).rid == i,
        forall|i: int| 0 <= i < visits_of(s).len() ==> ((#[trigger] visits_of(cl)[i]).0 matches Some(q) ==> d.mem@.contains_key(q)),
{
    lemma_parents(cl, cl.children@.len() as int);
    let (v, w) = (visits_of(s), visits_of(cl));
    lemma_copied_scene(s, cl, b.mem@, c.mem@);
    assert forall|p: NodePtr| #[trigger] b.mem@.contains_key(p) implies d.mem@[p] == b.mem@[p] by { assert(c.mem@.contains_key(p)); assert(!came(w, p)); }
    assert forall|i: int| 0 <= i < v.len() implies d.mem@[(#[trigger] v[i]).1] == b.mem@[v[i].1] by { assert(b.mem@.contains_key(v[i].1)); }
    assert forall|i: int| 0 <= i < w.len() implies ((#[trigger] w[i]).0 matches Some(q) ==> d.mem@.contains_key(q)) by {
        let z = all_beneath(cl); if i > 0 { assert(w[i] == z[i - 1]); let q = z[i - 1].0->0; if q == cl.this { assert(w[0].1 == q); } else { let j = choose|j: int| 0 <= j < i - 1 && (#[trigger] z[j]).1 == q; assert(w[j + 1] == z[j]); } }
    }
    assert(named_alike(v, b.mem@, d.mem@)); lemma_same_rows(s, b.mem@, d.mem@);
    assert(named_alike(w, c.mem@, d.mem@)); lemma_same_rows(cl, c.mem@, d.mem@);
    assert forall|i: int| 0 <= i < v.len() implies row_for(#[trigger] w[i], d.mem@) == row_for(v[i], d.mem@) && row_for(v[i], d.mem@).rid == i by { assert(b.mem@[v[i].1].rid == i as u64); }
}
/// What is written of a node before its fields, and then with some of them.
pub open spec fn row_head(e: (Seq<char>, toml::Item), r: Row) -> bool {
    e.0 == key_of(r.name, r.rid) && (toml::inner(e.1, "metadata"@) matches Some(m) && meta_of(m, r.kind, r.owner, r.parent))
}
pub open spec fn some_fields(e: (Seq<char>, toml::Item), l: Seq<(String, FieldBox)>, k: int) -> bool {
    &&& forall|i: int| 0 <= i < k && !l[i].1.ghost_export ==> e.1->Table_0@.contains_key((#[trigger] l[i]).0@) && e.1->Table_0@[l[i].0@] == toml::Item::Value(l[i].1.encoded)
    &&& forall|x: Seq<char>| #[trigger] e.1->Table_0@.contains_key(x) && x != "metadata"@ ==> exists|i: int| 0 <= i < k && (#[trigger] l[i]).0@ == x && !l[i].1.ghost_export
}
proof fn lemma_row(e: (Seq<char>, toml::Item), r: Row, l: Seq<(String, FieldBox)>)
    requires row_head(e, r), some_fields(e, l, l.len() as int), fields_of(l, r.fields), !r.fields.contains_key("metadata"@),
    ensures row_of(e, r),
{
    axiom_digits(r.rid);
    assert(e.0 == r.name + seq!['_'] + digits(r.rid));
    let t = e.1->Table_0@;
    assert forall|x: Seq<char>| #[trigger] t.contains_key(x) && x != "metadata"@ implies t[x] is Value && r.fields.contains_key(x) && t[x]->Value_0 == r.fields[x] by { let i = choose|i: int| 0 <= i < l.len() && (#[trigger] l[i]).0@ == x && !l[i].1.ghost_export; assert(t.contains_key(l[i].0@)); }
    assert forall|x: Seq<char>| #[trigger] r.fields.contains_key(x) implies t.contains_key(x) by { let i = choose|i: int| 0 <= i < l.len() && (#[trigger] l[i]).0@ == x && !l[i].1.ghost_export; }
    assert(field_values(t) =~= r.fields);
}
/// An entry under a new key comes last.
proof fn lemma_new_key(d: Seq<(Seq<char>, toml::Item)>, v: Seq<Visit>, m: Nodes, k: int)
    requires d.len() == k, 0 <= k < v.len() <= u64::MAX, forall|i: int| 0 <= i < k ==> (#[trigger] d[i]).0 == key_of(row_for(v[i], m).name, i as u64),
    ensures toml::at(d, key_of(row_for(v[k], m).name, k as u64)) == -1,
{
    let x = key_of(row_for(v[k], m).name, k as u64);
    toml::lemma_at(d, x);
    let i = toml::at(d, x);
    if i >= 0 { assert(d[i].0 == x); lemma_keys_differ(row_for(v[i], m).name, i as u64, row_for(v[k], m).name, k as u64); }
}
impl NodeScene {
//@ fn structs/node_scene.rs NodeScene::save_to_str | h=mut table=document realfmt strplus mcall=into=>to_item mcall=clone=>scene_copy
    requires placed(old(h), visits_of(*self)), visits_of(*self).len() <= u64::MAX, plain_classes(visits_of(*self)),
    ensures
        ret matches Ok(t) && tells(t@, *self, final(h).mem@), // [C15]
        positioned(old(h), final(h), visits_of(*self)), // [C15]
//@ hint entry
    let ghost (a, s) = (*h, *self); let ghost (v, x) = (visits_of(s), (None::<NodePtr>, s.this, s.is_owner));
    proof { assert(v[0].1 == s.this); lemma_placed_cat(h, seq![x], all_beneath(s)); assert(seq![x][0] == x); }
//@ hint before update_internal 0
    let ghost r = *h;
    proof { lemma_placed_keep(&a, h, all_beneath(s)); }
//@ hint after update_internal 0
    let ghost b = *h;
    proof {
        let w = all_beneath(s);
        assert forall|i: int| 0 <= i < v.len() implies b.mem@[(#[trigger] v[i]).1] == (NodeBase { rid: i as u64, ..a.mem@[v[i].1] }) by {
            if i == 0 { assert(came(seq![x], s.this)); assert(r.mem@.contains_key(s.this)); } else { assert(v[i] == w[i - 1]); assert(came(w, v[i].1)); assert(!came(seq![x], v[i].1)); assert(v[i].1 != v[0].1); assert(r.mem@[v[i].1] == a.mem@[v[i].1]); }
        }
        assert forall|p: NodePtr| #[trigger] a.mem@.contains_key(p) implies b.mem@.contains_key(p) && (!came(v, p) ==> b.mem@[p] == a.mem@[p]) by {
            assert(r.mem@.contains_key(p));
            if !came(v, p) { assert(p != s.this); if came(w, p) { let i = choose|i: int| 0 <= i < w.len() && (#[trigger] w[i]).1 == p; assert(v[i + 1] == w[i]); } }
        }
        assert(positioned(&a, &b, v));
    }
//@ hint beforeloop 0
    let ghost w = s0@;
    proof {
        let (cl, c) = choose|cl: NodeScene, c: NodeTreeBase| copied(s, cl, b.mem@, c.mem@) && made(&b, &c, visits_of(cl)) && s0@ == visits_of(cl) && marked(&c, h, visits_of(cl), cl.saved());
        lemma_rows(&a, s, &b, cl, &c, h);
    }
//@ loop 0
    invariant AUTO
        s == *self, v == visits_of(s), positioned(&a, h, v), v.len() <= u64::MAX, s0@.len() == v.len(), placed(h, s0@), plain_classes(v),
        forall|i: int| 0 <= i < v.len() ==> row_for(#[trigger] s0@[i], h.mem@) == row_for(v[i], h.mem@) && row_for(v[i], h.mem@).rid == i,
        forall|i: int| 0 <= i < v.len() ==> ((#[trigger] s0@[i]).0 matches Some(q) ==> h.mem@.contains_key(q)),
        document@.len() == k0, forall|i: int| 0 <= i < k0 ==> row_of(#[trigger] document@[i], row_for(v[i], h.mem@)) && document@[i].0 == key_of(row_for(v[i], h.mem@).name, i as u64),
//@ hint loopstart 0
    let ghost d = document@; let ghost j = k0 as int; let ghost row = row_for(v[j], h.mem@);
    proof { reveal_strlit("_"); reveal_strlit("type_name"); reveal_strlit("is_owner"); reveal_strlit("parent"); assert("type_name"@.len() == 9 && "is_owner"@.len() == 8 && "parent"@.len() == 6); assert("_"@ =~= seq!['_']); lemma_new_key(d, v, h.mem@, j); assert(row_for(s0@[j], h.mem@) == row); }
//@ loop 1 owned
    invariant AUTO
        fields_of(g1, row.fields), !row.fields.contains_key("metadata"@), node_key@ == key_of(row.name, row.rid),
        document@.len() == d.len() + 1, document@.drop_last() == d, row_head(document@.last(), row), some_fields(document@.last(), g1, k1 as int),
//@ hint loopend 0
    proof {
        let l = choose|l: Seq<(String, FieldBox)>| fields_of(l, row.fields) && some_fields(document@.last(), l, l.len() as int);
        lemma_row(document@.last(), row, l);
        assert forall|i: int| 0 <= i < k0 implies row_of(#[trigger] document@[i], row_for(v[i], h.mem@)) && document@[i].0 == key_of(row_for(v[i], h.mem@).name, i as u64) by { if i < j { assert(document@.drop_last()[i] == document@[i]); } }
    }
//@ hint afterloop 0
    proof { assert(records(document@, v, h.mem@)); }
//@ hint exit
    proof { lemma_comment(); }
//@ end
}

// Loading.
/// Encoded values by field name.
#[verifier::external_body]
pub struct SFieldMap { p: usize }
impl SFieldMap {
    pub uninterp spec fn view(&self) -> Map<Seq<char>, Value>;
    #[verifier::external_body]
    pub fn new() -> (ret: Self) ensures ret@ == Map::<Seq<char>, Value>::empty(), { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: String, v: Value) -> (ret: Option<Value>) ensures final(self)@ == old(self)@.insert(k@, v), { unimplemented!() }
}
pub mod node_registry {
    use super::*;
    /// Runs the deserializer that #[derive(NodeSys)] registered for a class.
    #[verifier::external_body]
    pub fn deserialize(name: &str, owned_state: SFieldMap, h: &NodeTreeBase) -> (ret: Result<NodeBox, String>)
        ensures match ret {
            Ok(b) => revived(name@, owned_state@) == Some(state(b.p)) && type_of(b.p) == name@ && stray(b.node@) && !h.mem@.contains_key(b.p),
            Err(_) => revived(name@, owned_state@) is None },
    { unimplemented!() }
}
impl NodeBox {
    pub fn set_name_unchecked(&mut self, name: &str, h: &mut NodeTreeBase)
        requires !old(h).mem@.contains_key(old(self).p),
        ensures
            final(self).p == old(self).p, final(self).node@ == (NodeBase { name: final(self).node@.name, ..old(self).node@ }), final(self).node@.name@ == name@,
            old(h).but_mem(final(h)), final(h).mem@ == old(h).mem@,
    { let p = h.mem.lend(self); p.set_name_unchecked(name, h); h.mem.take_back(self); proof { assert(h.mem@ =~= old(h).mem@); } }
}
/// A key at its last underscore.
pub open spec fn split_last(k: Seq<char>) -> Option<(Seq<char>, Seq<char>)> { if k.contains('_') { Some(choose|x: (Seq<char>, Seq<char>)| k == #[trigger] (x.0 + seq!['_'] + x.1) && !x.1.contains('_')) } else { None } }
proof fn lemma_split(a: Seq<char>, b: Seq<char>)
    requires !b.contains('_'),
    ensures split_last(a + seq!['_'] + b) == Some((a, b)),
{
    let k = a + seq!['_'] + b; assert(k[a.len() as int] == '_');
    let y = (a, b); assert(k == y.0 + seq!['_'] + y.1 && !y.1.contains('_'));
    let x = split_last(k)->0; assert(k == x.0 + seq!['_'] + x.1 && !x.1.contains('_'));
    lemma_key(x.0, x.1, a, b);
}
/// What an entry says, if it says what it has to.
pub open spec fn read(e: (Seq<char>, toml::Item)) -> Option<Row> {
    match toml::inner(e.1, "metadata"@) {
        Some(m) => match (if m.contains_key("type_name"@) { m["type_name"@] } else { Value::Boolean(toml::Formatted { value: false }) }, if m.contains_key("is_owner"@) { m["is_owner"@] } else { Value::Integer(toml::Formatted { value: 0 }) }) {
            (Value::String(kind), Value::Boolean(owner)) => if plain_fields(e.1->Table_0@) && revived(kind.value@, field_values(e.1->Table_0@)) is Some { match split_last(e.0) {
                Some((name, d)) => match parsed_u64(d) { Some(rid) => Some(Row { name, rid, kind: kind.value@, owner: owner.value, parent: (if m.contains_key("parent"@) { match m["parent"@] { Value::Integer(x) => Some(x.value as u64), _ => None } } else { None }), fields: field_values(e.1->Table_0@) }), None => None },
                None => None } } else { None },
            _ => None },
        None => None }
}
pub ghost struct Tree { pub row: Row, pub kids: Seq<Tree> }
pub open spec fn leaf(r: Row) -> Tree { Tree { row: r, kids: seq![] } }
/// Paths lead from a node to one below it, by child positions.
pub open spec fn leads(t: Tree, p: Seq<usize>) -> bool decreases p.len() { p.len() == 0 || (p[0] < t.kids.len() && leads(t.kids[p[0] as int], p.skip(1))) }
pub open spec fn tree_at(t: Tree, p: Seq<usize>) -> Tree decreases p.len() { if p.len() == 0 { t } else { tree_at(t.kids[p[0] as int], p.skip(1)) } }
/// A new last child.
pub open spec fn plant(t: Tree, p: Seq<usize>, x: Tree) -> Tree decreases p.len() { if p.len() == 0 { Tree { row: t.row, kids: t.kids.push(x) } } else { Tree { row: t.row, kids: t.kids.update(p[0] as int, plant(t.kids[p[0] as int], p.skip(1), x)) } } }
pub ghost struct Built { pub tree: Option<Tree>, pub paths: Map<u64, Seq<usize>> }
/// The first entry is the root. The others go below the node with their parent's number, which comes before them; the root is number 0.
pub open spec fn step(b: Built, r: Row) -> Option<Built> {
    match (b.tree, r.parent) {
        (None, _) => Some(Built { tree: Some(leaf(r)), paths: b.paths }),
        (Some(t), Some(q)) => if q == 0 || b.paths.contains_key(q) {
            let p = if q == 0 { Seq::<usize>::empty() } else { b.paths[q] };
            Some(Built { tree: Some(plant(t, p, leaf(r))), paths: b.paths.insert(r.rid, p.push(tree_at(t, p).kids.len() as usize)) })
        } else { None },
        _ => None }
}
pub open spec fn built(d: Seq<(Seq<char>, toml::Item)>, k: int) -> Option<Built>
    decreases k
{ if k <= 0 { Some(Built { tree: None, paths: Map::empty() }) } else { match (built(d, k - 1), read(d[k - 1])) { (Some(b), Some(r)) => step(b, r), _ => None } } }
proof fn lemma_unbuilt(d: Seq<(Seq<char>, toml::Item)>, k: int, n: int)
    requires 0 <= k <= n, built(d, k) is None,
    ensures built(d, n) is None,
    decreases n,
{ if k < n { lemma_unbuilt(d, k, n - 1); } }
/// The scene has this form, with nodes that were just made.
pub open spec fn shows(s: NodeScene, m: Nodes, t: Tree) -> bool
    decreases s
{
    &&& s.from_disk && s.is_owner == t.row.owner && s.children@.len() == t.kids.len()
    &&& m.contains_key(s.this) && stray(m[s.this]) && m[s.this].name@ == t.row.name && m[s.this].rid == t.row.rid && type_of(s.this) == t.row.kind && revived(t.row.kind, t.row.fields) == Some(state(s.this))
    &&& forall|i: int| 0 <= i < s.children@.len() ==> shows(#[trigger] s.children@[i], m, t.kids[i])
}
proof fn lemma_shows_keep(s: NodeScene, m: Nodes, n: Nodes, t: Tree)
    requires shows(s, m, t), forall|p: NodePtr| #[trigger] m.contains_key(p) ==> n.contains_key(p) && n[p] == m[p],
    ensures shows(s, n, t),
    decreases s,
{ assert forall|i: int| 0 <= i < s.children@.len() implies shows(#[trigger] s.children@[i], n, t.kids[i]) by { lemma_shows_keep(s.children@[i], m, n, t.kids[i]); } }
/// A raw pointer to a scene below another: where it is.
#[derive(Clone, Copy)]
pub struct ScenePtr { pub path: Ghost<Seq<usize>> }
pub open spec fn has_path(s: NodeScene, p: Seq<usize>) -> bool decreases p.len() { p.len() == 0 || (p[0] < s.children@.len() && has_path(s.children@[p[0] as int], p.skip(1))) }
pub open spec fn scene_of(s: NodeScene, p: Seq<usize>) -> NodeScene decreases p.len() { if p.len() == 0 { s } else { scene_of(s.children@[p[0] as int], p.skip(1)) } }
/// r is s with x in place of what was at p.
pub open spec fn is_put(s: NodeScene, p: Seq<usize>, x: NodeScene, r: NodeScene) -> bool
    decreases p.len()
{
    if p.len() == 0 { r == x } else {
        &&& r.this == s.this && r.from_disk == s.from_disk && r.is_owner == s.is_owner && r.children@.len() == s.children@.len() && p[0] < s.children@.len()
        &&& is_put(s.children@[p[0] as int], p.skip(1), x, r.children@[p[0] as int])
        &&& forall|j: int| 0 <= j < s.children@.len() && j != p[0] ==> #[trigger] r.children@[j] == s.children@[j]
    }
}
#[verifier::external_body]
pub fn ptr_top(s: &NodeScene, i: usize) -> (ret: ScenePtr) requires i < s.children@.len(), ensures ret.path@ == seq![i], { unimplemented!() }
#[verifier::external_body]
pub fn ptr_below(s: &NodeScene, p: ScenePtr, i: usize) -> (ret: ScenePtr) requires has_path(*s, p.path@), i < scene_of(*s, p.path@).children@.len(), ensures ret.path@ == p.path@.push(i), { unimplemented!() }
#[verifier::external_body]
pub fn ptr_deref(s: &mut NodeScene, p: ScenePtr) -> (ret: &mut NodeScene) requires has_path(*old(s), p.path@), ensures *ret == scene_of(*old(s), p.path@), is_put(*old(s), p.path@, *final(ret), *final(s)), { unimplemented!() }
proof fn lemma_path(s: NodeScene, p: Seq<usize>, k: int)
    requires has_path(s, p), 0 <= k < p.len(),
    ensures has_path(s, p.take(k)), p[k] < scene_of(s, p.take(k)).children@.len(), has_path(s, p.take(k + 1)), p.take(k + 1) == p.take(k).push(p[k]),
    decreases p.len(),
{
    assert(p.take(k + 1) =~= p.take(k).push(p[k]));
    let c = s.children@[p[0] as int];
    if k > 0 {
        lemma_path(c, p.skip(1), k - 1);
        assert(p.take(k).skip(1) =~= p.skip(1).take(k - 1)); assert(p.take(k + 1).skip(1) =~= p.skip(1).take(k));
    } else { assert(p.take(k + 1).skip(1).len() == 0); assert(p.take(k).len() == 0); assert(has_path(c, p.take(k + 1).skip(1))); assert(p.take(k + 1)[0] == p[0]); }
}
proof fn lemma_shows_path(s: NodeScene, m: Nodes, t: Tree, p: Seq<usize>)
    requires shows(s, m, t),
    ensures has_path(s, p) == leads(t, p), has_path(s, p) ==> shows(scene_of(s, p), m, tree_at(t, p)),
    decreases p.len(),
{ if p.len() > 0 && p[0] < s.children@.len() { assert(shows(s.children@[p[0] as int], m, t.kids[p[0] as int])); lemma_shows_path(s.children@[p[0] as int], m, t.kids[p[0] as int], p.skip(1)); } }
/// r is s with one more child at p, which has the form u.
pub open spec fn grown(s: NodeScene, p: Seq<usize>, m: Nodes, u: Tree, r: NodeScene) -> bool {
    exists|x: NodeScene| #[trigger] is_put(s, p, x, r) && one_more(scene_of(s, p), x) && shows(x.children@.last(), m, u)
}
pub open spec fn one_more(o: NodeScene, x: NodeScene) -> bool { x.this == o.this && x.from_disk == o.from_disk && x.is_owner == o.is_owner && x.children@.len() == o.children@.len() + 1 && x.children@.drop_last() == o.children@ }
/// Where a scene got a child its tree gets one.
proof fn lemma_planted(s: NodeScene, m: Nodes, t: Tree, p: Seq<usize>, u: Tree, r: NodeScene)
    requires shows(s, m, t), has_path(s, p), grown(s, p, m, u, r),
    ensures shows(r, m, plant(t, p, u)),
    decreases p.len(),
{
    let n = plant(t, p, u); let x = choose|x: NodeScene| #[trigger] is_put(s, p, x, r) && one_more(scene_of(s, p), x) && shows(x.children@.last(), m, u);
    if p.len() == 0 { assert forall|i: int| 0 <= i < r.children@.len() implies shows(#[trigger] r.children@[i], m, n.kids[i]) by { if i < s.children@.len() { assert(r.children@.drop_last()[i] == s.children@[i]); } } }
    else {
        let j = p[0] as int; assert(shows(s.children@[j], m, t.kids[j]));
        assert(is_put(s.children@[j], p.skip(1), x, r.children@[j]));
        lemma_planted(s.children@[j], m, t.kids[j], p.skip(1), u, r.children@[j]);
        assert forall|i: int| 0 <= i < r.children@.len() implies shows(#[trigger] r.children@[i], m, n.kids[i]) by { if i != j { assert(r.children@[i] == s.children@[i]); } }
    }
}
/// A step below a node.
proof fn lemma_step(s: NodeScene, m0: Nodes, m: Nodes, b: Built, r: NodeScene, row: Row)
    requires
        b.tree matches Some(t) && shows(s, m0, t), paths_ok(b), step(b, row) is Some,
        forall|q: NodePtr| #[trigger] m0.contains_key(q) ==> m.contains_key(q) && m[q] == m0[q],
        grown(s, place(b, row), m, leaf(row), r),
    ensures
        step(b, row)->0.tree matches Some(t) && shows(r, m, t), paths_ok(step(b, row)->0),
        step(b, row)->0.paths == b.paths.insert(row.rid, place(b, row).push(scene_of(s, place(b, row)).children.len())),
{
    let t = b.tree->0; let p = place(b, row);
    lemma_shows_keep(s, m0, m, t); lemma_shows_path(s, m, t, p);
    lemma_planted(s, m, t, p, leaf(row), r);
    let c = step(b, row)->0; let o = scene_of(s, p);
    assert(tree_at(t, p).kids.len() == o.children@.len());
    assert(o.children@.len() == o.children.len());
    lemma_leads(t, p, leaf(row), seq![]);
    assert forall|k: u64| #[trigger] c.paths.contains_key(k) implies c.paths[k].len() > 0 && leads(c.tree->0, c.paths[k]) by { if k != row.rid { lemma_leads(t, p, leaf(row), b.paths[k]); } }
}
/// The path of the node that an entry goes below.
pub open spec fn place(b: Built, row: Row) -> Seq<usize> { if row.parent->0 == 0 { Seq::<usize>::empty() } else { b.paths[row.parent->0] } }
/// Paths stay.
proof fn lemma_leads(t: Tree, p: Seq<usize>, x: Tree, q: Seq<usize>)
    requires leads(t, p),
    ensures leads(t, q) ==> leads(plant(t, p, x), q), tree_at(t, p).kids.len() <= usize::MAX ==> leads(plant(t, p, x), p.push(tree_at(t, p).kids.len() as usize)),
    decreases p.len(), q.len(),
{
    let n = plant(t, p, x); let w = p.push(tree_at(t, p).kids.len() as usize);
    if p.len() == 0 { assert(w.skip(1).len() == 0); assert(w[0] == t.kids.len() as usize); assert(leads(x, w.skip(1))); if t.kids.len() <= usize::MAX { assert(n.kids[w[0] as int] == x); } if q.len() > 0 && leads(t, q) { assert(n.kids[q[0] as int] == t.kids[q[0] as int]); } }
    else {
        let j = p[0] as int; assert(w.skip(1) =~= p.skip(1).push(tree_at(t.kids[j], p.skip(1)).kids.len() as usize));
        lemma_leads(t.kids[j], p.skip(1), x, if q.len() > 0 { q.skip(1) } else { q });
    }
}
/// What was loaded so far.
pub open spec fn state_is(b: Option<Built>, s: Option<NodeScene>, m: Nodes, t: Map<u64, Vec<usize>>) -> bool {
    b matches Some(b) && paths_ok(b)
    && match (b.tree, s) { (Some(x), Some(s)) => shows(s, m, x), (None, None) => b.paths == Map::<u64, Seq<usize>>::empty(), _ => false }
    && (forall|k: u64| #[trigger] t.contains_key(k) <==> b.paths.contains_key(k)) && (forall|k: u64| #[trigger] t.contains_key(k) ==> t[k]@ == b.paths[k])
}
pub open spec fn paths_ok(b: Built) -> bool { b.tree matches Some(t) ==> forall|r: u64| #[trigger] b.paths.contains_key(r) ==> b.paths[r].len() > 0 && leads(t, b.paths[r]) }
impl NodeScene {
//@ fn structs/node_scene.rs NodeScene::load_from_str | attr=verifier::loop_isolation(false) h=mut nofields strplus rawptr=node_scene subst=*mutNodeScene=>ScenePtr results mcall=parse=>parse_text mcall=flatten=>opt_flatten mcall=as_mut=>&mut:opt_as_mut mcall=rsplit_once=>str_rsplit_once mcall=into=>to_text
    ensures
        match parsed_doc(document@) { // [C15]
            Some(d) => match built(d@, d@.len() as int) { // [C15]
                Some(b) => match b.tree { Some(t) => ret matches Ok(s) && shows(s, final(h).mem@, t), None => ret is Err }, // [C15]
                None => ret is Err }, // [C15]
            None => ret is Err }, // [C15]
        untouched(old(h), final(h)), // [C15]
//@ hint entry
    let ghost a = *h; let ghost text = document@;
//@ loop 0 src=&list_document
    invariant AUTO
        untouched(&a, h),
        state_is(built(document@, k0 as int), node_scene, h.mem@, traversal@),
//@ hint loopstart 0
    let ghost (dd, kk, ns, hm, trav) = (document@, k0 as int, node_scene, h.mem@, traversal@); let ghost b0 = built(dd, kk)->0; let ghost e = dd[kk];
    proof {
        if built(dd, kk + 1) is None { lemma_unbuilt(dd, kk + 1, dd.len() as int); }
        assert forall|x: Seq<char>, y: Seq<char>| e.0 == #[trigger] (x + seq!['_'] + y) && !y.contains('_') implies split_last(e.0) == Some((x, y)) by { lemma_split(x, y); }
    }
//@ loop 1 src=list_items out=Option<SFieldMap>
    invariant AUTO
        ok1 ==> forall|i: int| 0 <= i < k1 && (#[trigger] s1@[i]).0@ != "metadata"@ ==> *s1@[i].1 is Value && o1@.contains_key(s1@[i].0@) && o1@[s1@[i].0@] == (*s1@[i].1)->Value_0,
        ok1 ==> forall|x: Seq<char>| #[trigger] o1@.contains_key(x) ==> x != "metadata"@ && exists|i: int| 0 <= i < k1 && (#[trigger] s1@[i]).0@ == x,
        !ok1 ==> exists|i: int| 0 <= i < k1 && (#[trigger] s1@[i]).0@ != "metadata"@ && !(*s1@[i].1 is Value),
//@ hint before deserialize 0
    proof {
        match node_fields { Some(ref f) => { assert(plain_fields(node_data@)); assert(f@ =~= field_values(node_data@)); } None => { assert(!plain_fields(node_data@)); } }
    }
//@ hint before set_name_unchecked 0
    proof { assert(read(e) == Some(Row { name: name@, rid: local_rid, kind: type_name@, owner: is_owner, parent, fields: field_values(node_data@) })); }
//@ hint before get 4
    let ghost row = read(e)->0;
    proof { lemma_shows_path(ns->0, hm, b0.tree->0, place(b0, row)); }
//@ loop 2 elem=ref
    invariant AUTO
        path@ == cached_path@.take(k2 as int), k2 == cached_path@.len() ==> path@ == cached_path@,
        match cursor { Some(c) => k2 > 0 && c.path@ == path@, None => k2 == 0 },
        *node_scene == ns->0, cached_path@ == place(b0, row), has_path(*node_scene, cached_path@), cached_path@.len() > 0,
//@ hint loopstart 2
    proof { assert(cached_path@.take(cached_path@.len() as int) =~= cached_path@); lemma_path(*node_scene, cached_path@, k2 as int); if k2 == 0 { assert(cached_path@.take(1) =~= seq![cached_path@[0]]); } }
//@ hint before insert 0
    let ghost row = read(e)->0;
    proof { assert(is_put(ns->0, Seq::<usize>::empty(), *node_scene, *node_scene)); assert(node_scene.children@.drop_last() =~= ns->0.children@); assert(grown(ns->0, place(b0, row), h.mem@, leaf(row), *node_scene)); lemma_step(ns->0, hm, h.mem@, b0, *node_scene, row); }
//@ hint before push 1
    let ghost x = *found_parent;
    proof { assert(x.children@.drop_last() =~= scene_of(ns->0, place(b0, row)).children@); assert(shows(x.children@.last(), h.mem@, leaf(row))); }
//@ hint before insert 1
    proof { assert(is_put(ns->0, place(b0, row), x, *node_scene)); assert(grown(ns->0, place(b0, row), h.mem@, leaf(row), *node_scene)); lemma_step(ns->0, hm, h.mem@, b0, *node_scene, row); }
//@ end
}

// A scene that was saved is loaded again.
proof fn lemma_read(e: (Seq<char>, toml::Item), r: Row)
    requires row_of(e, r), revived(r.kind, r.fields) is Some,
    ensures read(e) == Some(r),
{
    let d = choose|d: Seq<char>| e.0 == #[trigger] (r.name + seq!['_'] + d) && !d.contains('_') && parsed_u64(d) == Some(r.rid);
    lemma_split(r.name, d);
}
/// The trees below a node: its first k children.
pub open spec fn kids_of(s: NodeScene, m: Nodes, k: int) -> Seq<Tree>
    decreases s, k when 0 <= k <= s.children@.len()
{ if k <= 0 { seq![] } else { let c = s.children@[k - 1]; kids_of(s, m, k - 1).push(Tree { row: row_for((Some(s.this), c.this, c.is_owner), m), kids: kids_of(c, m, c.children@.len() as int) }) } }
pub open spec fn form(s: NodeScene, m: Nodes) -> Tree { Tree { row: row_for((None, s.this, s.is_owner), m), kids: kids_of(s, m, s.children@.len() as int) } }
proof fn lemma_kids(s: NodeScene, m: Nodes, k: int)
    requires 0 <= k <= s.children@.len(),
    ensures kids_of(s, m, k).len() == k, forall|i: int| 0 <= i < k ==> #[trigger] kids_of(s, m, k)[i] == (Tree { row: row_for((Some(s.this), s.children@[i].this, s.children@[i].is_owner), m), kids: kids_of(s.children@[i], m, s.children@[i].children@.len() as int) }),
    decreases k,
{ if k > 0 { lemma_kids(s, m, k - 1); assert forall|i: int| 0 <= i < k - 1 implies kids_of(s, m, k)[i] == kids_of(s, m, k - 1)[i] by {} } }
/// t with x at p.
pub open spec fn put(t: Tree, p: Seq<usize>, x: Tree) -> Tree decreases p.len() { if p.len() == 0 { x } else { Tree { row: t.row, kids: t.kids.update(p[0] as int, put(t.kids[p[0] as int], p.skip(1), x)) } } }
proof fn lemma_put(t: Tree, p: Seq<usize>, x: Tree, y: Tree, l: Tree)
    requires leads(t, p),
    ensures
        leads(put(t, p, x), p), tree_at(put(t, p, x), p) == x, put(put(t, p, x), p, y) == put(t, p, y), put(t, p, tree_at(t, p)) == t,
        plant(put(t, p, x), p, l) == put(t, p, Tree { row: x.row, kids: x.kids.push(l) }),
    decreases p.len(),
{
    if p.len() > 0 {
        let j = p[0] as int; let u = t.kids[j]; lemma_put(u, p.skip(1), x, y, l);
        let n = put(t, p, x); assert(n.kids[j] == put(u, p.skip(1), x));
        assert(put(n, p, y).kids =~= put(t, p, y).kids);
        assert(put(t, p, tree_at(t, p)).kids =~= t.kids);
        assert(plant(n, p, l).kids =~= put(t, p, Tree { row: x.row, kids: x.kids.push(l) }).kids);
    }
}
/// One step further down.
proof fn lemma_put_last(t: Tree, p: Seq<usize>, n: usize, x: Tree)
    requires leads(t, p), n < tree_at(t, p).kids.len(),
    ensures leads(t, p.push(n)), tree_at(t, p.push(n)) == tree_at(t, p).kids[n as int], put(t, p.push(n), x) == put(t, p, Tree { row: tree_at(t, p).row, kids: tree_at(t, p).kids.update(n as int, x) }),
    decreases p.len(),
{
    let w = p.push(n);
    if p.len() == 0 { assert(w.skip(1).len() == 0); assert(w[0] == n); assert(leads(t.kids[n as int], w.skip(1))); assert(tree_at(t.kids[n as int], w.skip(1)) == t.kids[n as int]); assert(put(t.kids[n as int], w.skip(1), x) == x); }
    else { assert(w.skip(1) =~= p.skip(1).push(n)); lemma_put_last(t.kids[p[0] as int], p.skip(1), n, x); }
}
/// A document with a numbered scene.
pub open spec fn numbered(d: Seq<(Seq<char>, toml::Item)>, v: Seq<Visit>, m: Nodes) -> bool {
    records(d, v, m) && v.len() <= u64::MAX && forall|i: int| 0 <= i < v.len() ==> m[(#[trigger] v[i]).1].rid == i
}
pub open spec fn regrown(d: Seq<(Seq<char>, toml::Item)>, s: NodeScene, k: int, m: Nodes, i: int, p: Seq<usize>) -> bool {
    let b = built(d, i)->0; let e = built(d, i + beneath(s, k).len());
    &&& e is Some && e->0.tree == Some(put(b.tree->0, p, Tree { row: tree_at(b.tree->0, p).row, kids: kids_of(s, m, k) }))
    &&& forall|r: u64| r < i ==> (#[trigger] e->0.paths.contains_key(r) <==> b.paths.contains_key(r))
    &&& forall|r: u64| r < i ==> e->0.paths[r] == #[trigger] b.paths[r]
}
/// While the entries of the nodes below s are read, the node of s at p gets its children.
#[verifier::spinoff_prover]
proof fn lemma_rebuilt(d: Seq<(Seq<char>, toml::Item)>, v: Seq<Visit>, m: Nodes, s: NodeScene, k: int, i: int, p: Seq<usize>)
    requires
        numbered(d, v, m), 0 <= k <= s.children@.len(), 0 < i, i + beneath(s, k).len() <= v.len(), v.subrange(i, i + beneath(s, k).len()) == beneath(s, k),
        m[s.this].rid < i,
        built(d, i) matches Some(b) && (b.tree matches Some(t) && leads(t, p) && tree_at(t, p).kids.len() == 0),
        if m[s.this].rid == 0 { p.len() == 0 } else { built(d, i)->0.paths.contains_key(m[s.this].rid) && built(d, i)->0.paths[m[s.this].rid] == p },
    ensures
        regrown(d, s, k, m, i, p),
    decreases s, k,
{
    let (b, n) = (built(d, i)->0, i + beneath(s, k).len()); let t = b.tree->0; let o = tree_at(t, p);
    lemma_put(t, p, o, o, o);
    if k <= 0 { assert(o.kids =~= kids_of(s, m, k)); assert(n == i); assert(o == Tree { row: o.row, kids: kids_of(s, m, k) }); assert(put(t, p, o) == t); let b3 = built(d, n)->0; assert(b3 == b); assert(built(d, n) == Some(b3)); assert(b3.tree == Some(t)); }
    else {
        let c = s.children@[k - 1]; let (u, w) = (beneath(s, k - 1), all_beneath(c)); let z = beneath(s, k); let j = i + u.len();
        assert(v.subrange(i, j) =~= u) by { assert forall|x: int| 0 <= x < u.len() implies v.subrange(i, j)[x] == u[x] by { assert(v.subrange(i, n)[x] == z[x]); } }
        lemma_rebuilt(d, v, m, s, k - 1, i, p);
        let b1 = built(d, j)->0; let t1 = Tree { row: o.row, kids: kids_of(s, m, k - 1) };
        assert(v[j] == z[u.len() as int]) by { assert(v.subrange(i, n)[u.len() as int] == v[j]); }
        let r = row_for(v[j], m);
        axiom_revived(v[j].1); lemma_read(d[j], r);
        lemma_kids(s, m, k - 1); lemma_put(t, p, t1, t1, leaf(r));
        assert(s.children@.len() == s.children.len());
        let b2 = step(b1, r)->0; let t2 = Tree { row: o.row, kids: t1.kids.push(leaf(r)) };
        assert(built(d, j + 1) == Some(b2)); assert(b2.tree == Some(put(t, p, t2)));
        let y = Tree { row: r, kids: kids_of(c, m, c.children@.len() as int) };
        lemma_put(t, p, t2, Tree { row: o.row, kids: t2.kids.update(k - 1, y) }, leaf(r));
        lemma_put_last(put(t, p, t2), p, (k - 1) as usize, y);
        assert(v.subrange(j + 1, n) =~= w) by { assert forall|x: int| 0 <= x < w.len() implies v.subrange(j + 1, n)[x] == w[x] by { assert(v.subrange(i, n)[u.len() + 1 + x] == z[u.len() + 1 + x]); } }
        assert(r.rid == j && r.parent == Some(m[s.this].rid));
        assert(tree_at(b1.tree->0, p).kids.len() == k - 1);
        if m[s.this].rid == 0 { assert(p =~= Seq::<usize>::empty()); }
        assert(b2.paths == b1.paths.insert(j as u64, p.push((k - 1) as usize)));
        lemma_rebuilt(d, v, m, c, c.children@.len() as int, j + 1, p.push((k - 1) as usize));
        assert(t2.kids.update(k - 1, y) =~= kids_of(s, m, k));
        assert(j + 1 + w.len() == n);
        let b3 = built(d, n)->0; let whole = Tree { row: o.row, kids: kids_of(s, m, k) };
        assert(b3.tree == Some(put(b2.tree->0, p.push((k - 1) as usize), y)));
        assert(b3.tree == Some(put(t, p, whole)));
        assert forall|q: u64| q < i implies (#[trigger] b3.paths.contains_key(q) <==> b.paths.contains_key(q)) && b3.paths[q] == b.paths[q] by {
            assert(built(d, j)->0.paths.contains_key(q) <==> b.paths.contains_key(q)); assert(b1.paths[q] == b.paths[q]);
            assert(q != j as u64); assert(b2.paths.contains_key(q) <==> b1.paths.contains_key(q)); assert(b2.paths[q] == b1.paths[q]);
            assert(q < j + 1); assert(built(d, j + 1)->0 == b2);
            assert(b3.paths.contains_key(q) <==> b2.paths.contains_key(q));
            assert(b3.paths[q] == b2.paths[q]);
        }
        assert(built(d, n) == Some(b3)); assert(whole == (Tree { row: tree_at(b.tree->0, p).row, kids: kids_of(s, m, k) }));
        let e = built(d, i + beneath(s, k).len());
        assert(e == Some(b3)); assert(b == built(d, i)->0);
        assert(e->0.tree == Some(put(b.tree->0, p, Tree { row: tree_at(b.tree->0, p).row, kids: kids_of(s, m, k) })));
        assert forall|q: u64| q < i implies (#[trigger] e->0.paths.contains_key(q) <==> b.paths.contains_key(q)) by { assert(b3.paths.contains_key(q) <==> b.paths.contains_key(q)); }
        assert forall|q: u64| q < i implies e->0.paths[q] == #[trigger] b.paths[q] by { assert(b3.paths.contains_key(q) <==> b.paths.contains_key(q)); assert(b3.paths[q] == b.paths[q]); }
        assert(regrown(d, s, k, m, i, p));
    }
}
proof fn lemma_round(d: Seq<(Seq<char>, toml::Item)>, s: NodeScene, m: Nodes)
    requires numbered(d, visits_of(s), m),
    ensures built(d, d.len() as int) matches Some(b) && b.tree == Some(form(s, m)),
{
    let v = visits_of(s); let r = row_for(v[0], m);
    axiom_revived(s.this); lemma_read(d[0], r); reveal_with_fuel(built, 2);
    assert(v[0] == (None::<NodePtr>, s.this, s.is_owner));
    assert(v.subrange(1, v.len() as int) =~= all_beneath(s));
    assert(m[v[0].1].rid == 0);
    lemma_rebuilt(d, v, m, s, s.children@.len() as int, 1, seq![]);
}
/// The same scene in other nodes: the same names, classes and exported state, the same ownership and the same children in the same order.
pub open spec fn again(s: NodeScene, a: Nodes, r: NodeScene, b: Nodes) -> bool
    decreases s
{
    &&& b.contains_key(r.this) && stray(b[r.this]) && r.from_disk
    &&& b[r.this].name@ == a[s.this].name@ && b[r.this].rid == a[s.this].rid && type_of(r.this) == type_of(s.this) && state(r.this) == state(s.this) && r.is_owner == s.is_owner
    &&& r.children@.len() == s.children@.len()
    &&& forall|i: int| 0 <= i < s.children@.len() ==> again(#[trigger] s.children@[i], a, r.children@[i], b)
}
proof fn lemma_again(s: NodeScene, a: Nodes, par: Option<NodePtr>, r: NodeScene, b: Nodes)
    requires shows(r, b, Tree { row: row_for((par, s.this, s.is_owner), a), kids: kids_of(s, a, s.children@.len() as int) }),
    ensures again(s, a, r, b),
    decreases s,
{
    axiom_revived(s.this); lemma_kids(s, a, s.children@.len() as int);
    assert forall|i: int| 0 <= i < s.children@.len() implies again(#[trigger] s.children@[i], a, r.children@[i], b) by { assert(shows(r.children@[i], b, kids_of(s, a, s.children@.len() as int)[i])); lemma_again(s.children@[i], a, Some(s.this), r.children@[i], b); }
}
/// The text of a scene is read as that scene, whatever nodes there are by then.
proof fn lemma_text(t: Seq<char>, s: NodeScene, a: &NodeTreeBase, b: &NodeTreeBase, r: NodeScene, c: &NodeTreeBase)
    requires
        tells(t, s, b.mem@), positioned(a, b, visits_of(s)), visits_of(s).len() <= u64::MAX,
        parsed_doc(t) matches Some(d) && (built(d@, d@.len() as int) matches Some(x) && (x.tree matches Some(y) ==> shows(r, c.mem@, y))),
    ensures again(s, b.mem@, r, c.mem@),
{ let d = parsed_doc(t)->0@; lemma_round(d, s, b.mem@); lemma_again(s, b.mem@, None, r, c.mem@); }
/// Only the names and ids of the saved nodes matter.
proof fn lemma_again_keep(s: NodeScene, k: int, a: Nodes, n: Nodes, r: NodeScene, b: Nodes)
    requires
        0 <= k <= s.children@.len() == r.children@.len(), forall|i: int| 0 <= i < k ==> again(#[trigger] s.children@[i], a, r.children@[i], b),
        forall|i: int| 0 <= i < beneath(s, k).len() ==> n[(#[trigger] beneath(s, k)[i]).1] == a[beneath(s, k)[i].1],
    ensures forall|i: int| 0 <= i < k ==> again(#[trigger] s.children@[i], n, r.children@[i], b),
    decreases s, k,
{
    if k > 0 {
        let (c, e) = (s.children@[k - 1], r.children@[k - 1]); let (u, w, z) = (beneath(s, k - 1), all_beneath(c), beneath(s, k));
        assert forall|i: int| 0 <= i < u.len() implies n[(#[trigger] u[i]).1] == a[u[i].1] by { assert(z[i] == u[i]); }
        assert forall|i: int| 0 <= i < w.len() implies n[(#[trigger] w[i]).1] == a[w[i].1] by { assert(z[u.len() + 1 + i] == w[i]); }
        assert(z[u.len() as int].1 == c.this);
        lemma_again_keep(s, k - 1, a, n, r, b); lemma_again_keep(c, c.children@.len() as int, a, n, e, b);
    }
}
/// Saving a scene and loading it gives it again.
pub fn save_and_load(s: &NodeScene, h: &mut NodeTreeBase) -> (ret: Result<NodeScene, String>)
    requires placed(old(h), visits_of(*s)), visits_of(*s).len() <= u64::MAX, plain_classes(visits_of(*s)),
    ensures
        ret matches Ok(r) && again(*s, final(h).mem@, r, final(h).mem@), // [C15]
        positioned(old(h), final(h), visits_of(*s)), // [C15]
{
    let ghost a = *h;
    let text = s.save_to_str(h)?;
    let ghost b = *h;
    let r = NodeScene::load_from_str(text.as_str(), h);
    proof {
        let d = parsed_doc(text@)->0@; lemma_round(d, *s, b.mem@);
        let r = r->Ok_0; let v = visits_of(*s); let w = all_beneath(*s);
        lemma_text(text@, *s, &a, &b, r, h);
        assert(v[0].1 == s.this);
        assert forall|i: int| 0 <= i < w.len() implies h.mem@[(#[trigger] w[i]).1] == b.mem@[w[i].1] by { assert(v[i + 1] == w[i]); assert(b.mem@.contains_key(w[i].1)); }
        lemma_again_keep(*s, s.children@.len() as int, b.mem@, h.mem@, r, h.mem@);
    }
    r
}
