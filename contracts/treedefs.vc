// The tree and its nodes: the data that the verified functions work on.
use std::marker::PhantomData;

/// A pointer to a node: what `&dyn Node`, `&mut dyn Node` and `*mut dyn Node` are to the verified text.
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct NodePtr { pub p: usize }
/// A pointer to the one tree.
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct TreePtr {}
/// An owned node that is not part of the heap any more.
pub struct NodeBox { pub p: NodePtr, pub node: Ghost<NodeBase> }
#[verifier::external_body]
pub struct StatusCell { p: usize }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Instant { p: usize }
/// A node that is not boxed yet counts as allocated where its box is going to be.
pub trait Node: Sized {
    spec fn spot(&self) -> NodePtr;
    fn to_dyn_box(self, h: &mut NodeTreeBase) -> (ret: NodeBox)
        requires old(h).mem@.contains_key(self.spot()),
        ensures ret.p == self.spot(), ret.node@ == old(h).mem@[ret.p], old(h).but_mem(final(h)), final(h).mem@ == old(h).mem@.remove(ret.p);
}
/// The type of a node, fixed when it is allocated.
pub uninterp spec fn is_type<T>(p: NodePtr) -> bool;
/// Whether the hooks of the other nodes leave this node in the tree.
pub uninterp spec fn keeps(p: NodePtr) -> bool;
/// The process mode that a node reports.
pub uninterp spec fn mode_of(p: NodePtr) -> ProcessMode;
/// Whether the hooks of the nodes leave the structure of the tree alone.
pub uninterp spec fn quiet() -> bool;

#[verifier::external_body]
pub struct StrMap { m: HashMap<String, RID> }
impl StrMap {
    pub uninterp spec fn view(&self) -> Map<Seq<char>, RID>;
    #[verifier::external_body]
    pub fn get(&self, k: &String) -> (ret: Option<&RID>)
        ensures ret.is_some() == self@.contains_key(k@), ret.is_some() ==> *ret.unwrap() == self@[k@],
    { self.m.get(k) }
    #[verifier::external_body]
    pub fn insert(&mut self, k: String, v: RID) -> (ret: Option<RID>) ensures final(self)@ == old(self)@.insert(k@, v), { self.m.insert(k, v) }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &String) -> (ret: Option<RID>) ensures final(self)@ == old(self)@.remove(k@), { self.m.remove(k) }
}
/// The order in which a map is iterated.
pub uninterp spec fn order_s(m: StrMap) -> Seq<Seq<char>>;
pub uninterp spec fn order_v<V>(m: HashMap<RID, V>) -> Seq<RID>;
#[verifier::external_body]
pub fn map_pairs<'a>(m: &'a StrMap) -> (ret: Vec<(&'a String, &'a RID)>)
    ensures
        ret@.len() == order_s(*m).len(),
        forall|i: int| 0 <= i < ret@.len() ==> (#[trigger] ret@[i]).0@ == order_s(*m)[i] && *ret@[i].1 == m@[order_s(*m)[i]] && m@.contains_key(order_s(*m)[i]),
        forall|k: Seq<char>| m@.contains_key(k) ==> #[trigger] order_s(*m).contains(k),
{ m.m.iter().collect() }
#[verifier::external_body]
pub fn it_values<'a, V>(m: &'a HashMap<RID, V>) -> (ret: Vec<&'a V>)
    ensures
        ret@.len() == order_v(*m).len(),
        forall|i: int| 0 <= i < ret@.len() ==> *(#[trigger] ret@[i]) == m@[order_v(*m)[i]] && m@.contains_key(order_v(*m)[i]),
        forall|k: RID| m@.contains_key(k) ==> #[trigger] order_v(*m).contains(k),
{ m.values().collect() }
#[verifier::external_body]
pub fn fmt_any() -> (ret: String) { String::new() }

//@ type structs/node_tree_base.rs ProcessMode copy eq
//@ type structs/node_tree_base.rs TreeProcess copy eq
//@ type structs/node_tree_base.rs TreeStatus copy eq
//@ type structs/node_tree_base.rs NodeIdentity
//@ type structs/node_base.rs NodeStatus
//@ type structs/node_tree_base.rs TerminationReason copy eq
//@ mode node
//@ subst Rc<Mutex<NodeStatus>> => StatusCell
//@ subst HashMap<String,RID> => StrMap
//@ type structs/node_base.rs NodeBase
/// What a node's status says.
pub ghost enum Stat { Normal, Warned(Seq<char>), Panicked(Seq<char>) }
pub open spec fn stat_of(s: NodeStatus) -> Stat { match s { NodeStatus::Normal => Stat::Normal, NodeStatus::JustWarned(m) => Stat::Warned(m@), NodeStatus::JustPanicked(m) => Stat::Panicked(m@) } }
pub ghost enum Event { Loaded(RID), Ready(RID), Process(RID, f32), Terminal(RID, TerminationReason) }
//@ type structs/node_tree_base.rs NodeTreeBase add
pub mem: Mem
pub events: Ghost<Seq<Event>>
pub stats: Ghost<Map<NodePtr, Stat>>
//@ end
/// The nodes that are allocated.
#[verifier::external_body]
pub struct Mem { p: usize }
impl Mem {
    pub uninterp spec fn view(&self) -> Map<NodePtr, NodeBase>;
    #[verifier::external_body]
    pub fn get(&self, p: NodePtr) -> (ret: &NodeBase)
        requires self@.contains_key(p),
        ensures *ret == self@[p],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut(&mut self, p: NodePtr) -> (ret: &mut NodeBase)
        requires old(self)@.contains_key(p),
        ensures *ret == old(self)@[p], final(self)@ == old(self)@.insert(p, *final(ret)),
    { unimplemented!() }
    /// Taking a node back into a box: it is freed when the box is dropped, so nothing may access it from here on.
    #[verifier::external_body]
    pub fn from_raw(&mut self, p: NodePtr) -> (ret: NodeBox)
        requires old(self)@.contains_key(p),
        ensures ret.p == p, ret.node@ == old(self)@[p], final(self)@ == old(self)@.remove(p),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn into_raw(&mut self, b: NodeBox) -> (ret: NodePtr)
        requires !old(self)@.contains_key(b.p),
        ensures ret == b.p, final(self)@ == old(self)@.insert(b.p, b.node@),
    { unimplemented!() }
}
