// Written by tools/mkclasses.py.
//@ include prelude.vc
//@ include strings.vc
//@ subst Self::Target => NodeBase
//@ subst Self :: Target => NodeBase

// What the generated code is made of. Their own contracts are proved in the groups fields, export,
// signals and heap; here they are assumed in the form in which generated code needs them.
/// Copies, as the Clone implementations make them.
pub trait Copied: Sized { spec fn copied(a: Self, b: Self) -> bool; fn clone(&self) -> (ret: Self) ensures Self::copied(*self, ret); }
/// An empty value.
pub trait Voidable: Sized { spec fn empty(a: Self) -> bool; fn void() -> (ret: Self) ensures Self::empty(ret); }
/// A value of the saved text.
#[verifier::external_body] pub struct Value { p: usize }
pub trait Exportable: Sized {
    spec fn ghost() -> bool;
    spec fn dec(v: Value) -> Option<Self>;
    /// Does not look at self (its documentation): the answer of the type.
    fn is_ghost_export_type() -> (ret: bool) ensures ret == Self::ghost();
    fn is_ghost_export(&self) -> (ret: bool) ensures ret == Self::ghost();
    fn from_value(value: Value) -> (ret: Option<Self>) requires !Self::ghost(), ensures ret == Self::dec(value);
}
/// What a value of this type is read from.
pub uninterp spec fn read<T>(v: Value) -> Option<T>;
/// x is what the Default of its type gives.
pub open spec fn preset<T: Default>(x: T) -> bool { T::default.ensures((), x) }
impl Copied for u8 { open spec fn copied(a: Self, b: Self) -> bool { a == b } #[verifier::external_body] fn clone(&self) -> (ret: Self) { Clone::clone(self) } }
impl Exportable for u8 { open spec fn ghost() -> bool { false } open spec fn dec(v: Value) -> Option<Self> { read(v) } #[verifier::external_body] fn is_ghost_export_type() -> bool { false } #[verifier::external_body] fn is_ghost_export(&self) -> bool { false } #[verifier::external_body] fn from_value(value: Value) -> (ret: Option<Self>) { unimplemented!() } }
impl Copied for u16 { open spec fn copied(a: Self, b: Self) -> bool { a == b } #[verifier::external_body] fn clone(&self) -> (ret: Self) { Clone::clone(self) } }
impl Exportable for u16 { open spec fn ghost() -> bool { false } open spec fn dec(v: Value) -> Option<Self> { read(v) } #[verifier::external_body] fn is_ghost_export_type() -> bool { false } #[verifier::external_body] fn is_ghost_export(&self) -> bool { false } #[verifier::external_body] fn from_value(value: Value) -> (ret: Option<Self>) { unimplemented!() } }
impl Copied for u32 { open spec fn copied(a: Self, b: Self) -> bool { a == b } #[verifier::external_body] fn clone(&self) -> (ret: Self) { Clone::clone(self) } }
impl Exportable for u32 { open spec fn ghost() -> bool { false } open spec fn dec(v: Value) -> Option<Self> { read(v) } #[verifier::external_body] fn is_ghost_export_type() -> bool { false } #[verifier::external_body] fn is_ghost_export(&self) -> bool { false } #[verifier::external_body] fn from_value(value: Value) -> (ret: Option<Self>) { unimplemented!() } }
impl Copied for u64 { open spec fn copied(a: Self, b: Self) -> bool { a == b } #[verifier::external_body] fn clone(&self) -> (ret: Self) { Clone::clone(self) } }
impl Exportable for u64 { open spec fn ghost() -> bool { false } open spec fn dec(v: Value) -> Option<Self> { read(v) } #[verifier::external_body] fn is_ghost_export_type() -> bool { false } #[verifier::external_body] fn is_ghost_export(&self) -> bool { false } #[verifier::external_body] fn from_value(value: Value) -> (ret: Option<Self>) { unimplemented!() } }
impl Copied for i8 { open spec fn copied(a: Self, b: Self) -> bool { a == b } #[verifier::external_body] fn clone(&self) -> (ret: Self) { Clone::clone(self) } }
impl Exportable for i8 { open spec fn ghost() -> bool { false } open spec fn dec(v: Value) -> Option<Self> { read(v) } #[verifier::external_body] fn is_ghost_export_type() -> bool { false } #[verifier::external_body] fn is_ghost_export(&self) -> bool { false } #[verifier::external_body] fn from_value(value: Value) -> (ret: Option<Self>) { unimplemented!() } }
impl Copied for i32 { open spec fn copied(a: Self, b: Self) -> bool { a == b } #[verifier::external_body] fn clone(&self) -> (ret: Self) { Clone::clone(self) } }
impl Exportable for i32 { open spec fn ghost() -> bool { false } open spec fn dec(v: Value) -> Option<Self> { read(v) } #[verifier::external_body] fn is_ghost_export_type() -> bool { false } #[verifier::external_body] fn is_ghost_export(&self) -> bool { false } #[verifier::external_body] fn from_value(value: Value) -> (ret: Option<Self>) { unimplemented!() } }
impl Copied for i64 { open spec fn copied(a: Self, b: Self) -> bool { a == b } #[verifier::external_body] fn clone(&self) -> (ret: Self) { Clone::clone(self) } }
impl Exportable for i64 { open spec fn ghost() -> bool { false } open spec fn dec(v: Value) -> Option<Self> { read(v) } #[verifier::external_body] fn is_ghost_export_type() -> bool { false } #[verifier::external_body] fn is_ghost_export(&self) -> bool { false } #[verifier::external_body] fn from_value(value: Value) -> (ret: Option<Self>) { unimplemented!() } }
impl Copied for bool { open spec fn copied(a: Self, b: Self) -> bool { a == b } #[verifier::external_body] fn clone(&self) -> (ret: Self) { Clone::clone(self) } }
impl Exportable for bool { open spec fn ghost() -> bool { false } open spec fn dec(v: Value) -> Option<Self> { read(v) } #[verifier::external_body] fn is_ghost_export_type() -> bool { false } #[verifier::external_body] fn is_ghost_export(&self) -> bool { false } #[verifier::external_body] fn from_value(value: Value) -> (ret: Option<Self>) { unimplemented!() } }
impl Copied for String { open spec fn copied(a: Self, b: Self) -> bool { a@ == b@ } #[verifier::external_body] fn clone(&self) -> (ret: Self) { Clone::clone(self) } }
impl Exportable for String { open spec fn ghost() -> bool { false } open spec fn dec(v: Value) -> Option<Self> { read(v) } #[verifier::external_body] fn is_ghost_export_type() -> bool { false } #[verifier::external_body] fn is_ghost_export(&self) -> bool { false } #[verifier::external_body] fn from_value(value: Value) -> (ret: Option<Self>) { unimplemented!() } }
impl Copied for Vec<u8> { open spec fn copied(a: Self, b: Self) -> bool { a@ == b@ } #[verifier::external_body] fn clone(&self) -> (ret: Self) { Clone::clone(self) } }
impl Exportable for Vec<u8> { open spec fn ghost() -> bool { false } open spec fn dec(v: Value) -> Option<Self> { read(v) } #[verifier::external_body] fn is_ghost_export_type() -> bool { false } #[verifier::external_body] fn is_ghost_export(&self) -> bool { false } #[verifier::external_body] fn from_value(value: Value) -> (ret: Option<Self>) { unimplemented!() } }
impl Copied for Option<i8> { open spec fn copied(a: Self, b: Self) -> bool { a == b } #[verifier::external_body] fn clone(&self) -> (ret: Self) { Clone::clone(self) } }
impl Exportable for Option<i8> { open spec fn ghost() -> bool { false } open spec fn dec(v: Value) -> Option<Self> { read(v) } #[verifier::external_body] fn is_ghost_export_type() -> bool { false } #[verifier::external_body] fn is_ghost_export(&self) -> bool { false } #[verifier::external_body] fn from_value(value: Value) -> (ret: Option<Self>) { unimplemented!() } }
//@ type structs/node_field.rs Field
//@ type structs/node_field.rs UniqueField
//@ type structs/node_field.rs ExportableField
//@ type structs/node_field.rs DefaultField
impl<T> Field<T> {
//@ fn structs/node_field.rs Field::new
    ensures ret == Field::Valid(item),
//@ end
}
impl<T> UniqueField<T> {
//@ fn structs/node_field.rs UniqueField::new
    ensures ret == UniqueField::Valid(item),
//@ end
}
impl<T: Exportable> ExportableField<T> {
//@ fn structs/node_field.rs ExportableField::new
    ensures ret.0 == item,
//@ end
}
impl<T: Default> DefaultField<T> {
//@ fn structs/node_field.rs DefaultField::new
    ensures ret.0 == item,
//@ end
}
impl<T: Copied> Copied for Field<T> {
    open spec fn copied(a: Self, b: Self) -> bool { match a { Field::Valid(x) => b matches Field::Valid(y) && T::copied(x, y), Field::Void => b is Void } }
//@ fn structs/node_field.rs <Clone for Field<T>>::clone | priv
//@ end
}
impl<T> Copied for UniqueField<T> {
    open spec fn copied(a: Self, b: Self) -> bool { b is Void }
//@ fn structs/node_field.rs <Clone for UniqueField<T>>::clone | priv
//@ end
}
impl<T: Copied + Exportable> Copied for ExportableField<T> {
    open spec fn copied(a: Self, b: Self) -> bool { T::copied(a.0, b.0) }
    /// Derived in the code.
    #[verifier::external_body]
    fn clone(&self) -> Self { unimplemented!() }
}
impl<T: Copied + Default> Copied for DefaultField<T> {
    open spec fn copied(a: Self, b: Self) -> bool { T::copied(a.0, b.0) }
    /// Derived in the code.
    #[verifier::external_body]
    fn clone(&self) -> Self { unimplemented!() }
}
impl<T> Exportable for Field<T> {
    open spec fn ghost() -> bool { true }
    open spec fn dec(v: Value) -> Option<Self> { None }
    /// Asks is_ghost_export.
    #[verifier::external_body] fn is_ghost_export_type() -> bool { true }
//@ fn structs/node_field.rs <Exportable for Field<T>>::is_ghost_export | priv
//@ end
//@ fn structs/node_field.rs <Exportable for Field<T>>::from_value | priv subst=toml_edit::Value=>Value
//@ end
}
impl<T> Exportable for UniqueField<T> {
    open spec fn ghost() -> bool { true }
    open spec fn dec(v: Value) -> Option<Self> { None }
    /// Asks is_ghost_export.
    #[verifier::external_body] fn is_ghost_export_type() -> bool { true }
//@ fn structs/node_field.rs <Exportable for UniqueField<T>>::is_ghost_export | priv
//@ end
//@ fn structs/node_field.rs <Exportable for UniqueField<T>>::from_value | priv subst=toml_edit::Value=>Value
//@ end
}
impl<T: Default> Exportable for DefaultField<T> {
    open spec fn ghost() -> bool { true }
    open spec fn dec(v: Value) -> Option<Self> { None }
    /// Asks is_ghost_export.
    #[verifier::external_body] fn is_ghost_export_type() -> bool { true }
//@ fn structs/node_field.rs <Exportable for DefaultField<T>>::is_ghost_export | priv
//@ end
//@ fn structs/node_field.rs <Exportable for DefaultField<T>>::from_value | priv subst=toml_edit::Value=>Value
//@ end
}
impl<T: Exportable> Exportable for ExportableField<T> {
    open spec fn ghost() -> bool { false }
    open spec fn dec(v: Value) -> Option<Self> { match T::dec(v) { Some(x) => Some(ExportableField(x)), None => None } }
    #[verifier::external_body] fn is_ghost_export_type() -> bool { false }
    #[verifier::external_body] fn is_ghost_export(&self) -> bool { false }
    /// Proved in group export.
    #[verifier::external_body] fn from_value(value: Value) -> (ret: Option<Self>) { unimplemented!() }
}
impl<T> Voidable for Field<T> {
    open spec fn empty(a: Self) -> bool { a is Void }
//@ fn structs/node_field.rs <Voidable for Field<T>>::void | priv
//@ end
}
impl<T> Voidable for UniqueField<T> {
    open spec fn empty(a: Self) -> bool { a is Void }
//@ fn structs/node_field.rs <Voidable for UniqueField<T>>::void | priv
//@ end
}
impl<T: Exportable + Default> ExportableField<T> {
    /// Derived in the code.
    #[verifier::external_body]
    pub fn default() -> (ret: Self) ensures preset(ret.0), { ExportableField(T::default()) }
}
impl<T: Exportable + Default> Voidable for ExportableField<T> {
    open spec fn empty(a: Self) -> bool { preset(a.0) }
//@ fn structs/node_field.rs <Voidable for ExportableField<T>>::void | priv
//@ end
}
impl<T: Default> DefaultField<T> {
    /// Derived in the code.
    #[verifier::external_body]
    pub fn default() -> (ret: Self) ensures preset(ret.0), { DefaultField(T::default()) }
}
impl<T: Default> Voidable for DefaultField<T> {
    open spec fn empty(a: Self) -> bool { preset(a.0) }
//@ fn structs/node_field.rs <Voidable for DefaultField<T>>::void | priv
//@ end
}
#[verifier::external_body] #[verifier::reject_recursive_types(A)] pub struct Signal<A> { p: Vec<A> }
/// A signal that nothing is connected to.
pub uninterp spec fn idle<A>(s: Signal<A>) -> bool;
impl<A> Signal<A> { /** Proved in group signals. */ #[verifier::external_body] pub fn new() -> (ret: Self) ensures idle(ret) { unimplemented!() } }
impl<T> Copied for Signal<T> {
    open spec fn copied(a: Self, b: Self) -> bool { idle(b) }
//@ fn structs/signals.rs <Clone for Signal<T>>::clone | priv
//@ end
}
impl<T> Voidable for Signal<T> {
    open spec fn empty(a: Self) -> bool { idle(a) }
//@ fn structs/signals.rs <Voidable for Signal<T>>::void | priv
//@ end
}
impl<T> Exportable for Signal<T> {
    open spec fn ghost() -> bool { true }
    open spec fn dec(v: Value) -> Option<Self> { None }
    /// Asks is_ghost_export.
    #[verifier::external_body] fn is_ghost_export_type() -> bool { true }
//@ fn structs/signals.rs <Exportable for Signal<T>>::is_ghost_export | priv
//@ end
//@ fn structs/signals.rs <Exportable for Signal<T>>::from_value | priv subst=toml::Value=>Value
//@ end
}
#[verifier::external_body] pub struct NodeBase { p: usize }
impl NodeBase { pub uninterp spec fn named(&self) -> Seq<char>; /** Outside a tree. */ pub uninterp spec fn fresh(&self) -> bool; }
/// The copy of a base (group heap).
pub uninterp spec fn same_base(a: NodeBase, b: NodeBase) -> bool;
impl NodeBase {
    #[verifier::external_body] pub fn new(name: String) -> (ret: Self) ensures ret.named() == name@, ret.fresh() { unimplemented!() }
    #[verifier::external_body] pub fn set_name_unchecked(&mut self, name: &str) ensures final(self).named() == name@, final(self).fresh() == old(self).fresh() { unimplemented!() }
}
impl Copied for NodeBase { open spec fn copied(a: Self, b: Self) -> bool { same_base(a, b) } #[verifier::external_body] fn clone(&self) -> Self { unimplemented!() } }

/// An entry of the saved state: its value, whose type says whether it is written.
#[verifier::external_body] pub struct Entry { p: usize }
pub uninterp spec fn entry<T>(t: T) -> Entry;
#[verifier::external_body] pub struct FieldMap { p: usize }
impl FieldMap {
    pub uninterp spec fn view(&self) -> Map<Seq<char>, Entry>;
    #[verifier::external_body] pub fn new() -> (ret: Self) ensures ret@ == Map::<Seq<char>, Entry>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn insert<T: Exportable>(&mut self, k: Box<str>, v: Box<T>) ensures final(self)@ == old(self)@.insert(k@, entry(*v)) { unimplemented!() }
}
/// The entry of a copy of x.
pub open spec fn copy_of<T: Copied>(e: Entry, x: T) -> bool { exists|c: T| #[trigger] T::copied(x, c) && e == entry(c) }
#[verifier::external_body] pub struct SFieldMap { p: usize }
impl SFieldMap {
    pub uninterp spec fn view(&self) -> Map<Seq<char>, Value>;
    #[verifier::external_body] pub fn remove(&mut self, k: &str) -> (ret: Option<Value>) ensures final(self)@ == old(self)@.remove(k@), ret == (if old(self)@.contains_key(k@) { Some(old(self)@[k@]) } else { None }) { unimplemented!() }
}
pub open spec fn reads<T: Exportable>(m: Map<Seq<char>, Value>, k: Seq<char>) -> bool { m.contains_key(k) && T::dec(m[k]) is Some }
pub enum ProcessMode { Inherit, Always, Pausable, Inverse }
pub mod node_tree { pub mod prelude { pub use super::super::{NodeBase, Signal}; } pub mod structs { pub mod node_field { pub use super::super::super::{Field, UniqueField, ExportableField, DefaultField}; } pub mod node_base { pub use super::super::super::NodeBase; } pub mod node_tree_base { pub use super::super::super::NodeTreeBase; } } pub mod services { pub mod node_registry { pub use super::super::super::{FieldMap, SFieldMap}; } } pub mod traits { pub mod exportable { pub use super::super::super::{Exportable, Voidable}; } pub mod element { pub use super::super::super::AsElement; } } }

/// The wrappers that scene! puts around values.
pub trait AsElement<F>: Sized { spec fn wrapped(self) -> F; fn wrap(self) -> (ret: F) ensures ret == self.wrapped(); }
/// What Exportable gives to types that do not say it themselves, and how it asks a type without a value.
pub struct AnyExport<T> { pub t: T }
pub struct Place<T> { pub t: T }
/// Memory of a type that nothing was written to yet: is_ghost_export does not look at it.
#[verifier::external_body] pub fn place_of<T>() -> (ret: Place<T>) { unimplemented!() }
impl<T> Place<T> { #[verifier::external_body] pub fn assume_init_ref(&self) -> (ret: &T) { unimplemented!() } }
impl<T: Exportable> AnyExport<T> {
//@ fn traits/exportable.rs Exportable::is_ghost_export_type | path=mem::MaybeUninit::<Self>::uninit=>place_of::<T>
    ensures ret == T::ghost(),
//@ end
//@ fn traits/exportable.rs Exportable::is_ghost_export
    ensures ret == false,
//@ end
//@ fn traits/exportable.rs <Exportable for ()>::is_ghost_export | as=is_ghost_export_of_unit
    ensures ret == true,
//@ end
}
/// A hook that a class does not write: the body that the trait Node gives.
pub struct Unwritten { pub state: u64 }
pub enum TerminationReason { TreeExit, Freed, RemovedAsChild }
impl Unwritten {
//@ fn traits/node.rs Node::loaded
    ensures *final(self) == *old(self),
//@ end
//@ fn traits/node.rs Node::ready
    ensures *final(self) == *old(self),
//@ end
//@ fn traits/node.rs Node::process
    ensures *final(self) == *old(self),
//@ end
//@ fn traits/node.rs Node::terminal
    ensures *final(self) == *old(self),
//@ end
//@ fn traits/node.rs Node::process_mode
    ensures ret is Inherit,
//@ end
}
impl<T> AsElement<Field<T>> for T {
    open spec fn wrapped(self) -> Field<T> { Field::Valid(self) }
//@ fn traits/element.rs <AsElement<Field<T>> for T>::wrap | priv
//@ end
}
impl<T: Exportable> AsElement<ExportableField<T>> for T {
    open spec fn wrapped(self) -> ExportableField<T> { ExportableField(self) }
//@ fn traits/element.rs <AsElement<ExportableField<T>> for T>::wrap | priv
//@ end
}
impl<T> AsElement<UniqueField<T>> for T {
    open spec fn wrapped(self) -> UniqueField<T> { UniqueField::Valid(self) }
//@ fn traits/element.rs <AsElement<UniqueField<T>> for T>::wrap | priv
//@ end
}
impl<T: Default> AsElement<DefaultField<T>> for T {
    open spec fn wrapped(self) -> DefaultField<T> { DefaultField(self) }
//@ fn traits/element.rs <AsElement<DefaultField<T>> for T>::wrap | priv
//@ end
}

// All
//@ type @classes All
impl All {
//@ fn @classes All::new
    ensures
        ret.base.named() == "All"@, ret.base.fresh(),
        idle(ret.on_tick),
        idle(ret.on_text),
        idle(ret.on_hit),
        ret.plain == Field::Valid(plain_),
        ret.preset == Field::Valid(5i32),
        ret.tag.0 == tag_,
        ret.count.0 == 9u32,
        preset(ret.level.0),
        preset(ret.score.0),
        preset(ret.list.0),
        preset(ret.maybe.0),
        ret.once == UniqueField::Valid(7u64),
        ret.spare == UniqueField::Valid(-3i8),
//@ end
//@ fn @classes <Clone for All>::clone | path=::core::clone::Clone::clone=>Copied::clone
    ensures
        same_base(self.base, ret.base),
        Copied::copied(self.on_tick, ret.on_tick),
        Copied::copied(self.on_text, ret.on_text),
        Copied::copied(self.on_hit, ret.on_hit),
        Copied::copied(self.plain, ret.plain),
        Copied::copied(self.preset, ret.preset),
        Copied::copied(self.tag, ret.tag),
        Copied::copied(self.count, ret.count),
        Copied::copied(self.level, ret.level),
        Copied::copied(self.score, ret.score),
        Copied::copied(self.list, ret.list),
        Copied::copied(self.maybe, ret.maybe),
        Copied::copied(self.once, ret.once),
        Copied::copied(self.spare, ret.spare),
//@ end
//@ fn @classes <Deref for All>::deref
    ensures *ret == self.base,
//@ end
//@ fn @classes <DerefMut for All>::deref_mut
    ensures *ret == old(self).base, final(self).base == *final(ret),
        final(self).on_tick == old(self).on_tick,
        final(self).on_text == old(self).on_text,
        final(self).on_hit == old(self).on_hit,
        final(self).plain == old(self).plain,
        final(self).preset == old(self).preset,
        final(self).tag == old(self).tag,
        final(self).count == old(self).count,
        final(self).level == old(self).level,
        final(self).score == old(self).score,
        final(self).list == old(self).list,
        final(self).maybe == old(self).maybe,
        final(self).once == old(self).once,
        final(self).spare == old(self).spare,
//@ end
//@ fn @classes <NodeAbstract for All>::base | as=base_of
    ensures *ret == self.base,
//@ end
//@ fn @classes <NodeAbstract for All>::base_mut | as=base_of_mut
    ensures *ret == old(self).base, final(self).base == *final(ret),
        final(self).on_tick == old(self).on_tick,
        final(self).on_text == old(self).on_text,
        final(self).on_hit == old(self).on_hit,
        final(self).plain == old(self).plain,
        final(self).preset == old(self).preset,
        final(self).tag == old(self).tag,
        final(self).count == old(self).count,
        final(self).level == old(self).level,
        final(self).score == old(self).score,
        final(self).list == old(self).list,
        final(self).maybe == old(self).maybe,
        final(self).once == old(self).once,
        final(self).spare == old(self).spare,
//@ end
//@ fn @classes <Registered for All>::save_from_owned
    ensures
        ret@.dom().subset_of(set!["on_tick"@, "on_text"@, "on_hit"@, "plain"@, "preset"@, "tag"@, "count"@, "level"@, "score"@, "list"@, "maybe"@, "once"@, "spare"@]),
        ret@.contains_key("on_tick"@) ==> copy_of(ret@["on_tick"@], self.on_tick),
        ret@.contains_key("on_text"@) ==> copy_of(ret@["on_text"@], self.on_text),
        ret@.contains_key("on_hit"@) ==> copy_of(ret@["on_hit"@], self.on_hit),
        ret@.contains_key("plain"@) ==> copy_of(ret@["plain"@], self.plain),
        ret@.contains_key("preset"@) ==> copy_of(ret@["preset"@], self.preset),
        ret@.contains_key("tag"@) && copy_of(ret@["tag"@], self.tag),
        ret@.contains_key("count"@) && copy_of(ret@["count"@], self.count),
        ret@.contains_key("level"@) && copy_of(ret@["level"@], self.level),
        ret@.contains_key("score"@) ==> copy_of(ret@["score"@], self.score),
        ret@.contains_key("list"@) ==> copy_of(ret@["list"@], self.list),
        ret@.contains_key("maybe"@) && copy_of(ret@["maybe"@], self.maybe),
        ret@.contains_key("once"@) ==> copy_of(ret@["once"@], self.once),
        ret@.contains_key("spare"@) ==> copy_of(ret@["spare"@], self.spare),
    //@ hint entry
        proof { reveal_strlit("on_tick"); assert("on_tick"@.len() == 7); reveal_strlit("on_text"); assert("on_text"@.len() == 7); reveal_strlit("on_hit"); assert("on_hit"@.len() == 6); reveal_strlit("plain"); assert("plain"@.len() == 5); reveal_strlit("preset"); assert("preset"@.len() == 6); reveal_strlit("tag"); assert("tag"@.len() == 3); reveal_strlit("count"); assert("count"@.len() == 5); reveal_strlit("level"); assert("level"@.len() == 5); reveal_strlit("score"); assert("score"@.len() == 5); reveal_strlit("list"); assert("list"@.len() == 4); reveal_strlit("maybe"); assert("maybe"@.len() == 5); reveal_strlit("once"); assert("once"@.len() == 4); reveal_strlit("spare"); assert("spare"@.len() == 5); assert("on_text"@[4] != "on_tick"@[4]); assert("preset"@[0] != "on_hit"@[0]); assert("count"@[0] != "plain"@[0]); assert("level"@[0] != "plain"@[0]); assert("level"@[0] != "count"@[0]); assert("score"@[0] != "plain"@[0]); assert("score"@[0] != "count"@[0]); assert("score"@[0] != "level"@[0]); assert("maybe"@[0] != "plain"@[0]); assert("maybe"@[0] != "count"@[0]); assert("maybe"@[0] != "level"@[0]); assert("maybe"@[0] != "score"@[0]); assert("once"@[0] != "list"@[0]); assert("spare"@[0] != "plain"@[0]); assert("spare"@[0] != "count"@[0]); assert("spare"@[0] != "level"@[0]); assert("spare"@[1] != "score"@[1]); assert("spare"@[0] != "maybe"@[0]); }
//@ end
//@ fn @classes <Registered for All>::load_from_owned
    ensures
        ret is Ok == (reads::<ExportableField<String>>(owned_state@, "tag"@) && reads::<ExportableField<u32>>(owned_state@, "count"@) && reads::<ExportableField<u8>>(owned_state@, "level"@) && reads::<ExportableField<Option<i8>>>(owned_state@, "maybe"@)),
        ret matches Ok(r) ==> r.base.named() == "All"@ && r.base.fresh() && Voidable::empty(r.on_tick) && Voidable::empty(r.on_text) && Voidable::empty(r.on_hit) && Voidable::empty(r.plain) && Voidable::empty(r.preset) && Some(r.tag) == <ExportableField<String> as Exportable>::dec(owned_state@["tag"@]) && Some(r.count) == <ExportableField<u32> as Exportable>::dec(owned_state@["count"@]) && Some(r.level) == <ExportableField<u8> as Exportable>::dec(owned_state@["level"@]) && Voidable::empty(r.score) && Voidable::empty(r.list) && Some(r.maybe) == <ExportableField<Option<i8>> as Exportable>::dec(owned_state@["maybe"@]) && Voidable::empty(r.once) && Voidable::empty(r.spare),
    //@ hint entry
        proof { reveal_strlit("tag"); assert("tag"@.len() == 3); reveal_strlit("count"); assert("count"@.len() == 5); reveal_strlit("level"); assert("level"@.len() == 5); reveal_strlit("maybe"); assert("maybe"@.len() == 5); assert("level"@[0] != "count"@[0]); assert("maybe"@[0] != "count"@[0]); assert("maybe"@[0] != "level"@[0]); }
//@ end
//@ fn @classes <Node for All>::process_mode
    ensures ret is Always,
//@ end
    /// Through Deref.
    pub fn set_name_unchecked(&mut self, name: &str)
        ensures final(self).base.named() == name@, final(self).base.fresh() == old(self).base.fresh(), final(self).on_tick == old(self).on_tick, final(self).on_text == old(self).on_text, final(self).on_hit == old(self).on_hit, final(self).plain == old(self).plain, final(self).preset == old(self).preset, final(self).tag == old(self).tag, final(self).count == old(self).count, final(self).level == old(self).level, final(self).score == old(self).score, final(self).list == old(self).list, final(self).maybe == old(self).maybe, final(self).once == old(self).once, final(self).spare == old(self).spare,
    { self.deref_mut().set_name_unchecked(name) }
}

// Bare
//@ type @classes Bare
impl Bare {
//@ fn @classes Bare::new
    ensures
        ret.base.named() == "Bare"@, ret.base.fresh(),
//@ end
//@ fn @classes <Clone for Bare>::clone | path=::core::clone::Clone::clone=>Copied::clone
    ensures
        same_base(self.base, ret.base),
//@ end
//@ fn @classes <Deref for Bare>::deref
    ensures *ret == self.base,
//@ end
//@ fn @classes <DerefMut for Bare>::deref_mut
    ensures *ret == old(self).base, final(self).base == *final(ret),
//@ end
//@ fn @classes <NodeAbstract for Bare>::base | as=base_of
    ensures *ret == self.base,
//@ end
//@ fn @classes <NodeAbstract for Bare>::base_mut | as=base_of_mut
    ensures *ret == old(self).base, final(self).base == *final(ret),
//@ end
//@ fn @classes <Registered for Bare>::save_from_owned
    ensures
        ret@.dom().subset_of(set![]),
//@ end
//@ fn @classes <Registered for Bare>::load_from_owned
    ensures
        ret is Ok == (true),
        ret matches Ok(r) ==> r.base.named() == "Bare"@ && r.base.fresh(),
//@ end
    /// Through Deref.
    pub fn set_name_unchecked(&mut self, name: &str)
        ensures final(self).base.named() == name@, final(self).base.fresh() == old(self).base.fresh(),
    { self.deref_mut().set_name_unchecked(name) }
}

// Preset
//@ type @classes Preset
impl Preset {
//@ fn @classes Preset::new
    ensures
        ret.base.named() == "Preset"@, ret.base.fresh(),
        ret.low.0 == -7i64,
        ret.high == Field::Valid((1u64 << 40)),
        preset(ret.flag.0),
        preset(ret.word.0),
//@ end
//@ fn @classes <Clone for Preset>::clone | path=::core::clone::Clone::clone=>Copied::clone
    ensures
        same_base(self.base, ret.base),
        Copied::copied(self.low, ret.low),
        Copied::copied(self.high, ret.high),
        Copied::copied(self.flag, ret.flag),
        Copied::copied(self.word, ret.word),
//@ end
//@ fn @classes <Deref for Preset>::deref
    ensures *ret == self.base,
//@ end
//@ fn @classes <DerefMut for Preset>::deref_mut
    ensures *ret == old(self).base, final(self).base == *final(ret),
        final(self).low == old(self).low,
        final(self).high == old(self).high,
        final(self).flag == old(self).flag,
        final(self).word == old(self).word,
//@ end
//@ fn @classes <NodeAbstract for Preset>::base | as=base_of
    ensures *ret == self.base,
//@ end
//@ fn @classes <NodeAbstract for Preset>::base_mut | as=base_of_mut
    ensures *ret == old(self).base, final(self).base == *final(ret),
        final(self).low == old(self).low,
        final(self).high == old(self).high,
        final(self).flag == old(self).flag,
        final(self).word == old(self).word,
//@ end
//@ fn @classes <Registered for Preset>::save_from_owned
    ensures
        ret@.dom().subset_of(set!["low"@, "high"@, "flag"@, "word"@]),
        ret@.contains_key("low"@) && copy_of(ret@["low"@], self.low),
        ret@.contains_key("high"@) ==> copy_of(ret@["high"@], self.high),
        ret@.contains_key("flag"@) ==> copy_of(ret@["flag"@], self.flag),
        ret@.contains_key("word"@) && copy_of(ret@["word"@], self.word),
    //@ hint entry
        proof { reveal_strlit("low"); assert("low"@.len() == 3); reveal_strlit("high"); assert("high"@.len() == 4); reveal_strlit("flag"); assert("flag"@.len() == 4); reveal_strlit("word"); assert("word"@.len() == 4); assert("flag"@[0] != "high"@[0]); assert("word"@[0] != "high"@[0]); assert("word"@[0] != "flag"@[0]); }
//@ end
//@ fn @classes <Registered for Preset>::load_from_owned
    ensures
        ret is Ok == (reads::<ExportableField<i64>>(owned_state@, "low"@) && reads::<ExportableField<String>>(owned_state@, "word"@)),
        ret matches Ok(r) ==> r.base.named() == "Preset"@ && r.base.fresh() && Some(r.low) == <ExportableField<i64> as Exportable>::dec(owned_state@["low"@]) && Voidable::empty(r.high) && Voidable::empty(r.flag) && Some(r.word) == <ExportableField<String> as Exportable>::dec(owned_state@["word"@]),
    //@ hint entry
        proof { reveal_strlit("low"); assert("low"@.len() == 3); reveal_strlit("word"); assert("word"@.len() == 4); }
//@ end
    /// Through Deref.
    pub fn set_name_unchecked(&mut self, name: &str)
        ensures final(self).base.named() == name@, final(self).base.fresh() == old(self).base.fresh(), final(self).low == old(self).low, final(self).high == old(self).high, final(self).flag == old(self).flag, final(self).word == old(self).word,
    { self.deref_mut().set_name_unchecked(name) }
}

// Private
//@ type @classes Private
impl Private {
//@ fn @classes Private::new
    ensures
        ret.base.named() == "Private"@, ret.base.fresh(),
        ret.a.0 == a,
        ret.b == Field::Valid(b),
//@ end
//@ fn @classes <Clone for Private>::clone | path=::core::clone::Clone::clone=>Copied::clone
    ensures
        same_base(self.base, ret.base),
        Copied::copied(self.a, ret.a),
        Copied::copied(self.b, ret.b),
//@ end
//@ fn @classes <Deref for Private>::deref
    ensures *ret == self.base,
//@ end
//@ fn @classes <DerefMut for Private>::deref_mut
    ensures *ret == old(self).base, final(self).base == *final(ret),
        final(self).a == old(self).a,
        final(self).b == old(self).b,
//@ end
//@ fn @classes <NodeAbstract for Private>::base | as=base_of
    ensures *ret == self.base,
//@ end
//@ fn @classes <NodeAbstract for Private>::base_mut | as=base_of_mut
    ensures *ret == old(self).base, final(self).base == *final(ret),
        final(self).a == old(self).a,
        final(self).b == old(self).b,
//@ end
//@ fn @classes <Registered for Private>::save_from_owned
    ensures
        ret@.dom().subset_of(set!["a"@, "b"@]),
        ret@.contains_key("a"@) && copy_of(ret@["a"@], self.a),
        ret@.contains_key("b"@) ==> copy_of(ret@["b"@], self.b),
    //@ hint entry
        proof { reveal_strlit("a"); assert("a"@.len() == 1); reveal_strlit("b"); assert("b"@.len() == 1); assert("b"@[0] != "a"@[0]); }
//@ end
//@ fn @classes <Registered for Private>::load_from_owned
    ensures
        ret is Ok == (reads::<ExportableField<u8>>(owned_state@, "a"@)),
        ret matches Ok(r) ==> r.base.named() == "Private"@ && r.base.fresh() && Some(r.a) == <ExportableField<u8> as Exportable>::dec(owned_state@["a"@]) && Voidable::empty(r.b),
    //@ hint entry
        proof { reveal_strlit("a"); assert("a"@.len() == 1); }
//@ end
    /// Through Deref.
    pub fn set_name_unchecked(&mut self, name: &str)
        ensures final(self).base.named() == name@, final(self).base.fresh() == old(self).base.fresh(), final(self).a == old(self).a, final(self).b == old(self).b,
    { self.deref_mut().set_name_unchecked(name) }
}

// Ear
//@ type @classes Ear
impl Ear {
//@ fn @classes Ear::new
    ensures
        ret.base.named() == "Ear"@, ret.base.fresh(),
        idle(ret.on_word),
//@ end
//@ fn @classes <Clone for Ear>::clone | path=::core::clone::Clone::clone=>Copied::clone
    ensures
        same_base(self.base, ret.base),
        Copied::copied(self.on_word, ret.on_word),
//@ end
//@ fn @classes <Deref for Ear>::deref
    ensures *ret == self.base,
//@ end
//@ fn @classes <DerefMut for Ear>::deref_mut
    ensures *ret == old(self).base, final(self).base == *final(ret),
        final(self).on_word == old(self).on_word,
//@ end
//@ fn @classes <NodeAbstract for Ear>::base | as=base_of
    ensures *ret == self.base,
//@ end
//@ fn @classes <NodeAbstract for Ear>::base_mut | as=base_of_mut
    ensures *ret == old(self).base, final(self).base == *final(ret),
        final(self).on_word == old(self).on_word,
//@ end
//@ fn @classes <Registered for Ear>::save_from_owned
    ensures
        ret@.dom().subset_of(set!["on_word"@]),
        ret@.contains_key("on_word"@) ==> copy_of(ret@["on_word"@], self.on_word),
    //@ hint entry
        proof { reveal_strlit("on_word"); assert("on_word"@.len() == 7); }
//@ end
//@ fn @classes <Registered for Ear>::load_from_owned
    ensures
        ret is Ok == (true),
        ret matches Ok(r) ==> r.base.named() == "Ear"@ && r.base.fresh() && Voidable::empty(r.on_word),
//@ end
    /// Through Deref.
    pub fn set_name_unchecked(&mut self, name: &str)
        ensures final(self).base.named() == name@, final(self).base.fresh() == old(self).base.fresh(), final(self).on_word == old(self).on_word,
    { self.deref_mut().set_name_unchecked(name) }
}

// CameraNode
//@ type @classes CameraNode
impl CameraNode {
//@ fn @classes CameraNode::new
    ensures
        ret.base.named() == "CameraNode"@, ret.base.fresh(),
        ret.y == Field::Valid(y),
        preset(ret.node.0),
        preset(ret.hk.0),
        preset(ret.count_of.0),
        preset(ret.tag_1.0),
        ret.wrap == Field::Valid(wrap),
        ret.is_ghost == Field::Valid(is_ghost),
        preset(ret.ba.0),
//@ end
//@ fn @classes <Clone for CameraNode>::clone | path=::core::clone::Clone::clone=>Copied::clone
    ensures
        same_base(self.base, ret.base),
        Copied::copied(self.y, ret.y),
        Copied::copied(self.node, ret.node),
        Copied::copied(self.hk, ret.hk),
        Copied::copied(self.count_of, ret.count_of),
        Copied::copied(self.tag_1, ret.tag_1),
        Copied::copied(self.wrap, ret.wrap),
        Copied::copied(self.is_ghost, ret.is_ghost),
        Copied::copied(self.ba, ret.ba),
//@ end
//@ fn @classes <Deref for CameraNode>::deref
    ensures *ret == self.base,
//@ end
//@ fn @classes <DerefMut for CameraNode>::deref_mut
    ensures *ret == old(self).base, final(self).base == *final(ret),
        final(self).y == old(self).y,
        final(self).node == old(self).node,
        final(self).hk == old(self).hk,
        final(self).count_of == old(self).count_of,
        final(self).tag_1 == old(self).tag_1,
        final(self).wrap == old(self).wrap,
        final(self).is_ghost == old(self).is_ghost,
        final(self).ba == old(self).ba,
//@ end
//@ fn @classes <NodeAbstract for CameraNode>::base | as=base_of
    ensures *ret == self.base,
//@ end
//@ fn @classes <NodeAbstract for CameraNode>::base_mut | as=base_of_mut
    ensures *ret == old(self).base, final(self).base == *final(ret),
        final(self).y == old(self).y,
        final(self).node == old(self).node,
        final(self).hk == old(self).hk,
        final(self).count_of == old(self).count_of,
        final(self).tag_1 == old(self).tag_1,
        final(self).wrap == old(self).wrap,
        final(self).is_ghost == old(self).is_ghost,
        final(self).ba == old(self).ba,
//@ end
//@ fn @classes <Registered for CameraNode>::save_from_owned
    ensures
        ret@.dom().subset_of(set!["y"@, "node"@, "hk"@, "count_of"@, "tag_1"@, "wrap"@, "is_ghost"@, "ba"@]),
        ret@.contains_key("y"@) ==> copy_of(ret@["y"@], self.y),
        ret@.contains_key("node"@) ==> copy_of(ret@["node"@], self.node),
        ret@.contains_key("hk"@) && copy_of(ret@["hk"@], self.hk),
        ret@.contains_key("count_of"@) ==> copy_of(ret@["count_of"@], self.count_of),
        ret@.contains_key("tag_1"@) ==> copy_of(ret@["tag_1"@], self.tag_1),
        ret@.contains_key("wrap"@) ==> copy_of(ret@["wrap"@], self.wrap),
        ret@.contains_key("is_ghost"@) ==> copy_of(ret@["is_ghost"@], self.is_ghost),
        ret@.contains_key("ba"@) && copy_of(ret@["ba"@], self.ba),
    //@ hint entry
        proof { reveal_strlit("y"); assert("y"@.len() == 1); reveal_strlit("node"); assert("node"@.len() == 4); reveal_strlit("hk"); assert("hk"@.len() == 2); reveal_strlit("count_of"); assert("count_of"@.len() == 8); reveal_strlit("tag_1"); assert("tag_1"@.len() == 5); reveal_strlit("wrap"); assert("wrap"@.len() == 4); reveal_strlit("is_ghost"); assert("is_ghost"@.len() == 8); reveal_strlit("ba"); assert("ba"@.len() == 2); assert("wrap"@[0] != "node"@[0]); assert("is_ghost"@[0] != "count_of"@[0]); assert("ba"@[0] != "hk"@[0]); }
//@ end
//@ fn @classes <Registered for CameraNode>::load_from_owned
    ensures
        ret is Ok == (reads::<ExportableField<Vec<u8>>>(owned_state@, "hk"@) && reads::<ExportableField<u8>>(owned_state@, "ba"@)),
        ret matches Ok(r) ==> r.base.named() == "CameraNode"@ && r.base.fresh() && Voidable::empty(r.y) && Voidable::empty(r.node) && Some(r.hk) == <ExportableField<Vec<u8>> as Exportable>::dec(owned_state@["hk"@]) && Voidable::empty(r.count_of) && Voidable::empty(r.tag_1) && Voidable::empty(r.wrap) && Voidable::empty(r.is_ghost) && Some(r.ba) == <ExportableField<u8> as Exportable>::dec(owned_state@["ba"@]),
    //@ hint entry
        proof { reveal_strlit("hk"); assert("hk"@.len() == 2); reveal_strlit("ba"); assert("ba"@.len() == 2); assert("ba"@[0] != "hk"@[0]); }
//@ end
    /// Through Deref.
    pub fn set_name_unchecked(&mut self, name: &str)
        ensures final(self).base.named() == name@, final(self).base.fresh() == old(self).base.fresh(), final(self).y == old(self).y, final(self).node == old(self).node, final(self).hk == old(self).hk, final(self).count_of == old(self).count_of, final(self).tag_1 == old(self).tag_1, final(self).wrap == old(self).wrap, final(self).is_ghost == old(self).is_ghost, final(self).ba == old(self).ba,
    { self.deref_mut().set_name_unchecked(name) }
}

// SubTree
//@ type @classes SubTree
impl SubTree {
//@ fn @classes SubTree::new
    ensures
        ret.base.named() == "SubTree"@, ret.base.fresh(),
        ret.parent == UniqueField::Valid(-2147483647i32),
        preset(ret.root.0),
        preset(ret.wrap.0),
        preset(ret.camelCase.0),
        preset(ret.count_of.0),
        preset(ret.new.0),
        ret.tree.0 == tree,
        preset(ret.__deep.0),
//@ end
//@ fn @classes <Clone for SubTree>::clone | path=::core::clone::Clone::clone=>Copied::clone
    ensures
        same_base(self.base, ret.base),
        Copied::copied(self.parent, ret.parent),
        Copied::copied(self.root, ret.root),
        Copied::copied(self.wrap, ret.wrap),
        Copied::copied(self.camelCase, ret.camelCase),
        Copied::copied(self.count_of, ret.count_of),
        Copied::copied(self.new, ret.new),
        Copied::copied(self.tree, ret.tree),
        Copied::copied(self.__deep, ret.__deep),
//@ end
//@ fn @classes <Deref for SubTree>::deref
    ensures *ret == self.base,
//@ end
//@ fn @classes <DerefMut for SubTree>::deref_mut
    ensures *ret == old(self).base, final(self).base == *final(ret),
        final(self).parent == old(self).parent,
        final(self).root == old(self).root,
        final(self).wrap == old(self).wrap,
        final(self).camelCase == old(self).camelCase,
        final(self).count_of == old(self).count_of,
        final(self).new == old(self).new,
        final(self).tree == old(self).tree,
        final(self).__deep == old(self).__deep,
//@ end
//@ fn @classes <NodeAbstract for SubTree>::base | as=base_of
    ensures *ret == self.base,
//@ end
//@ fn @classes <NodeAbstract for SubTree>::base_mut | as=base_of_mut
    ensures *ret == old(self).base, final(self).base == *final(ret),
        final(self).parent == old(self).parent,
        final(self).root == old(self).root,
        final(self).wrap == old(self).wrap,
        final(self).camelCase == old(self).camelCase,
        final(self).count_of == old(self).count_of,
        final(self).new == old(self).new,
        final(self).tree == old(self).tree,
        final(self).__deep == old(self).__deep,
//@ end
//@ fn @classes <Registered for SubTree>::save_from_owned
    ensures
        ret@.dom().subset_of(set!["parent"@, "root"@, "wrap"@, "camelCase"@, "count_of"@, "new"@, "tree"@, "__deep"@]),
        ret@.contains_key("parent"@) ==> copy_of(ret@["parent"@], self.parent),
        ret@.contains_key("root"@) ==> copy_of(ret@["root"@], self.root),
        ret@.contains_key("wrap"@) && copy_of(ret@["wrap"@], self.wrap),
        ret@.contains_key("camelCase"@) && copy_of(ret@["camelCase"@], self.camelCase),
        ret@.contains_key("count_of"@) ==> copy_of(ret@["count_of"@], self.count_of),
        ret@.contains_key("new"@) && copy_of(ret@["new"@], self.new),
        ret@.contains_key("tree"@) && copy_of(ret@["tree"@], self.tree),
        ret@.contains_key("__deep"@) && copy_of(ret@["__deep"@], self.__deep),
    //@ hint entry
        proof { reveal_strlit("parent"); assert("parent"@.len() == 6); reveal_strlit("root"); assert("root"@.len() == 4); reveal_strlit("wrap"); assert("wrap"@.len() == 4); reveal_strlit("camelCase"); assert("camelCase"@.len() == 9); reveal_strlit("count_of"); assert("count_of"@.len() == 8); reveal_strlit("new"); assert("new"@.len() == 3); reveal_strlit("tree"); assert("tree"@.len() == 4); reveal_strlit("__deep"); assert("__deep"@.len() == 6); assert("wrap"@[0] != "root"@[0]); assert("tree"@[0] != "root"@[0]); assert("tree"@[0] != "wrap"@[0]); assert("__deep"@[0] != "parent"@[0]); }
//@ end
//@ fn @classes <Registered for SubTree>::load_from_owned
    ensures
        ret is Ok == (reads::<ExportableField<u16>>(owned_state@, "wrap"@) && reads::<ExportableField<String>>(owned_state@, "camelCase"@) && reads::<ExportableField<String>>(owned_state@, "new"@) && reads::<ExportableField<i64>>(owned_state@, "tree"@) && reads::<ExportableField<String>>(owned_state@, "__deep"@)),
        ret matches Ok(r) ==> r.base.named() == "SubTree"@ && r.base.fresh() && Voidable::empty(r.parent) && Voidable::empty(r.root) && Some(r.wrap) == <ExportableField<u16> as Exportable>::dec(owned_state@["wrap"@]) && Some(r.camelCase) == <ExportableField<String> as Exportable>::dec(owned_state@["camelCase"@]) && Voidable::empty(r.count_of) && Some(r.new) == <ExportableField<String> as Exportable>::dec(owned_state@["new"@]) && Some(r.tree) == <ExportableField<i64> as Exportable>::dec(owned_state@["tree"@]) && Some(r.__deep) == <ExportableField<String> as Exportable>::dec(owned_state@["__deep"@]),
    //@ hint entry
        proof { reveal_strlit("wrap"); assert("wrap"@.len() == 4); reveal_strlit("camelCase"); assert("camelCase"@.len() == 9); reveal_strlit("new"); assert("new"@.len() == 3); reveal_strlit("tree"); assert("tree"@.len() == 4); reveal_strlit("__deep"); assert("__deep"@.len() == 6); assert("tree"@[0] != "wrap"@[0]); }
//@ end
//@ fn @classes <Node for SubTree>::process_mode
    ensures ret is Inverse,
//@ end
    /// Through Deref.
    pub fn set_name_unchecked(&mut self, name: &str)
        ensures final(self).base.named() == name@, final(self).base.fresh() == old(self).base.fresh(), final(self).parent == old(self).parent, final(self).root == old(self).root, final(self).wrap == old(self).wrap, final(self).camelCase == old(self).camelCase, final(self).count_of == old(self).count_of, final(self).new == old(self).new, final(self).tree == old(self).tree, final(self).__deep == old(self).__deep,
    { self.deref_mut().set_name_unchecked(name) }
}

// PlayerNode
//@ type @classes PlayerNode
impl PlayerNode {
//@ fn @classes PlayerNode::new
    ensures
        ret.base.named() == "PlayerNode"@, ret.base.fresh(),
        ret.kind == UniqueField::Valid(kind),
//@ end
//@ fn @classes <Clone for PlayerNode>::clone | path=::core::clone::Clone::clone=>Copied::clone
    ensures
        same_base(self.base, ret.base),
        Copied::copied(self.kind, ret.kind),
//@ end
//@ fn @classes <Deref for PlayerNode>::deref
    ensures *ret == self.base,
//@ end
//@ fn @classes <DerefMut for PlayerNode>::deref_mut
    ensures *ret == old(self).base, final(self).base == *final(ret),
        final(self).kind == old(self).kind,
//@ end
//@ fn @classes <NodeAbstract for PlayerNode>::base | as=base_of
    ensures *ret == self.base,
//@ end
//@ fn @classes <NodeAbstract for PlayerNode>::base_mut | as=base_of_mut
    ensures *ret == old(self).base, final(self).base == *final(ret),
        final(self).kind == old(self).kind,
//@ end
//@ fn @classes <Registered for PlayerNode>::save_from_owned
    ensures
        ret@.dom().subset_of(set!["kind"@]),
        ret@.contains_key("kind"@) ==> copy_of(ret@["kind"@], self.kind),
    //@ hint entry
        proof { reveal_strlit("kind"); assert("kind"@.len() == 4); }
//@ end
//@ fn @classes <Registered for PlayerNode>::load_from_owned
    ensures
        ret is Ok == (true),
        ret matches Ok(r) ==> r.base.named() == "PlayerNode"@ && r.base.fresh() && Voidable::empty(r.kind),
//@ end
//@ fn @classes <Node for PlayerNode>::process_mode
    ensures ret is Inverse,
//@ end
    /// Through Deref.
    pub fn set_name_unchecked(&mut self, name: &str)
        ensures final(self).base.named() == name@, final(self).base.fresh() == old(self).base.fresh(), final(self).kind == old(self).kind,
    { self.deref_mut().set_name_unchecked(name) }
}

// Node3D
//@ type @classes Node3D
impl Node3D {
//@ fn @classes Node3D::new
    ensures
        ret.base.named() == "Node3D"@, ret.base.fresh(),
        ret.tag_1 == UniqueField::Valid(false),
        preset(ret.take.0),
        ret.root == UniqueField::Valid(root),
        ret.children.0 == children,
        ret.owner == Field::Valid(owner),
        preset(ret.x10.0),
        preset(ret.parent.0),
        preset(ret.mode.0),
        ret.rid == Field::Valid(rid),
        ret._low.0 == true,
        ret.a == UniqueField::Valid(-1i64),
        preset(ret.on_x.0),
        preset(ret.wrap.0),
        preset(ret.ty.0),
        ret.unique == Field::Valid(unique),
        preset(ret.declare.0),
        ret.signal == UniqueField::Valid(signal),
        ret.owned_state.0 == 3696680071u32,
        ret.kind == Field::Valid(kind),
        preset(ret.name.0),
//@ end
//@ fn @classes <Clone for Node3D>::clone | path=::core::clone::Clone::clone=>Copied::clone
    ensures
        same_base(self.base, ret.base),
        Copied::copied(self.tag_1, ret.tag_1),
        Copied::copied(self.take, ret.take),
        Copied::copied(self.root, ret.root),
        Copied::copied(self.children, ret.children),
        Copied::copied(self.owner, ret.owner),
        Copied::copied(self.x10, ret.x10),
        Copied::copied(self.parent, ret.parent),
        Copied::copied(self.mode, ret.mode),
        Copied::copied(self.rid, ret.rid),
        Copied::copied(self._low, ret._low),
        Copied::copied(self.a, ret.a),
        Copied::copied(self.on_x, ret.on_x),
        Copied::copied(self.wrap, ret.wrap),
        Copied::copied(self.ty, ret.ty),
        Copied::copied(self.unique, ret.unique),
        Copied::copied(self.declare, ret.declare),
        Copied::copied(self.signal, ret.signal),
        Copied::copied(self.owned_state, ret.owned_state),
        Copied::copied(self.kind, ret.kind),
        Copied::copied(self.name, ret.name),
//@ end
//@ fn @classes <Deref for Node3D>::deref
    ensures *ret == self.base,
//@ end
//@ fn @classes <DerefMut for Node3D>::deref_mut
    ensures *ret == old(self).base, final(self).base == *final(ret),
        final(self).tag_1 == old(self).tag_1,
        final(self).take == old(self).take,
        final(self).root == old(self).root,
        final(self).children == old(self).children,
        final(self).owner == old(self).owner,
        final(self).x10 == old(self).x10,
        final(self).parent == old(self).parent,
        final(self).mode == old(self).mode,
        final(self).rid == old(self).rid,
        final(self)._low == old(self)._low,
        final(self).a == old(self).a,
        final(self).on_x == old(self).on_x,
        final(self).wrap == old(self).wrap,
        final(self).ty == old(self).ty,
        final(self).unique == old(self).unique,
        final(self).declare == old(self).declare,
        final(self).signal == old(self).signal,
        final(self).owned_state == old(self).owned_state,
        final(self).kind == old(self).kind,
        final(self).name == old(self).name,
//@ end
//@ fn @classes <NodeAbstract for Node3D>::base | as=base_of
    ensures *ret == self.base,
//@ end
//@ fn @classes <NodeAbstract for Node3D>::base_mut | as=base_of_mut
    ensures *ret == old(self).base, final(self).base == *final(ret),
        final(self).tag_1 == old(self).tag_1,
        final(self).take == old(self).take,
        final(self).root == old(self).root,
        final(self).children == old(self).children,
        final(self).owner == old(self).owner,
        final(self).x10 == old(self).x10,
        final(self).parent == old(self).parent,
        final(self).mode == old(self).mode,
        final(self).rid == old(self).rid,
        final(self)._low == old(self)._low,
        final(self).a == old(self).a,
        final(self).on_x == old(self).on_x,
        final(self).wrap == old(self).wrap,
        final(self).ty == old(self).ty,
        final(self).unique == old(self).unique,
        final(self).declare == old(self).declare,
        final(self).signal == old(self).signal,
        final(self).owned_state == old(self).owned_state,
        final(self).kind == old(self).kind,
        final(self).name == old(self).name,
//@ end
//@ fn @classes <Registered for Node3D>::save_from_owned
    ensures
        ret@.dom().subset_of(set!["tag_1"@, "take"@, "root"@, "children"@, "owner"@, "x10"@, "parent"@, "mode"@, "rid"@, "_low"@, "a"@, "on_x"@, "wrap"@, "ty"@, "unique"@, "declare"@, "signal"@, "owned_state"@, "kind"@, "name"@]),
        ret@.contains_key("tag_1"@) ==> copy_of(ret@["tag_1"@], self.tag_1),
        ret@.contains_key("take"@) && copy_of(ret@["take"@], self.take),
        ret@.contains_key("root"@) ==> copy_of(ret@["root"@], self.root),
        ret@.contains_key("children"@) && copy_of(ret@["children"@], self.children),
        ret@.contains_key("owner"@) ==> copy_of(ret@["owner"@], self.owner),
        ret@.contains_key("x10"@) ==> copy_of(ret@["x10"@], self.x10),
        ret@.contains_key("parent"@) && copy_of(ret@["parent"@], self.parent),
        ret@.contains_key("mode"@) && copy_of(ret@["mode"@], self.mode),
        ret@.contains_key("rid"@) ==> copy_of(ret@["rid"@], self.rid),
        ret@.contains_key("_low"@) && copy_of(ret@["_low"@], self._low),
        ret@.contains_key("a"@) ==> copy_of(ret@["a"@], self.a),
        ret@.contains_key("on_x"@) && copy_of(ret@["on_x"@], self.on_x),
        ret@.contains_key("wrap"@) ==> copy_of(ret@["wrap"@], self.wrap),
        ret@.contains_key("ty"@) ==> copy_of(ret@["ty"@], self.ty),
        ret@.contains_key("unique"@) ==> copy_of(ret@["unique"@], self.unique),
        ret@.contains_key("declare"@) ==> copy_of(ret@["declare"@], self.declare),
        ret@.contains_key("signal"@) ==> copy_of(ret@["signal"@], self.signal),
        ret@.contains_key("owned_state"@) && copy_of(ret@["owned_state"@], self.owned_state),
        ret@.contains_key("kind"@) ==> copy_of(ret@["kind"@], self.kind),
        ret@.contains_key("name"@) ==> copy_of(ret@["name"@], self.name),
    //@ hint entry
        proof { reveal_strlit("tag_1"); assert("tag_1"@.len() == 5); reveal_strlit("take"); assert("take"@.len() == 4); reveal_strlit("root"); assert("root"@.len() == 4); reveal_strlit("children"); assert("children"@.len() == 8); reveal_strlit("owner"); assert("owner"@.len() == 5); reveal_strlit("x10"); assert("x10"@.len() == 3); reveal_strlit("parent"); assert("parent"@.len() == 6); reveal_strlit("mode"); assert("mode"@.len() == 4); reveal_strlit("rid"); assert("rid"@.len() == 3); reveal_strlit("_low"); assert("_low"@.len() == 4); reveal_strlit("a"); assert("a"@.len() == 1); reveal_strlit("on_x"); assert("on_x"@.len() == 4); reveal_strlit("wrap"); assert("wrap"@.len() == 4); reveal_strlit("ty"); assert("ty"@.len() == 2); reveal_strlit("unique"); assert("unique"@.len() == 6); reveal_strlit("declare"); assert("declare"@.len() == 7); reveal_strlit("signal"); assert("signal"@.len() == 6); reveal_strlit("owned_state"); assert("owned_state"@.len() == 11); reveal_strlit("kind"); assert("kind"@.len() == 4); reveal_strlit("name"); assert("name"@.len() == 4); assert("root"@[0] != "take"@[0]); assert("owner"@[0] != "tag_1"@[0]); assert("mode"@[0] != "take"@[0]); assert("mode"@[0] != "root"@[0]); assert("rid"@[0] != "x10"@[0]); assert("_low"@[0] != "take"@[0]); assert("_low"@[0] != "root"@[0]); assert("_low"@[0] != "mode"@[0]); assert("on_x"@[0] != "take"@[0]); assert("on_x"@[0] != "root"@[0]); assert("on_x"@[0] != "mode"@[0]); assert("on_x"@[0] != "_low"@[0]); assert("wrap"@[0] != "take"@[0]); assert("wrap"@[0] != "root"@[0]); assert("wrap"@[0] != "mode"@[0]); assert("wrap"@[0] != "_low"@[0]); assert("wrap"@[0] != "on_x"@[0]); assert("unique"@[0] != "parent"@[0]); assert("signal"@[0] != "parent"@[0]); assert("signal"@[0] != "unique"@[0]); assert("kind"@[0] != "take"@[0]); assert("kind"@[0] != "root"@[0]); assert("kind"@[0] != "mode"@[0]); assert("kind"@[0] != "_low"@[0]); assert("kind"@[0] != "on_x"@[0]); assert("kind"@[0] != "wrap"@[0]); assert("name"@[0] != "take"@[0]); assert("name"@[0] != "root"@[0]); assert("name"@[0] != "mode"@[0]); assert("name"@[0] != "_low"@[0]); assert("name"@[0] != "on_x"@[0]); assert("name"@[0] != "wrap"@[0]); assert("name"@[0] != "kind"@[0]); }
//@ end
//@ fn @classes <Registered for Node3D>::load_from_owned
    ensures
        ret is Ok == (reads::<ExportableField<String>>(owned_state@, "take"@) && reads::<ExportableField<bool>>(owned_state@, "children"@) && reads::<ExportableField<u32>>(owned_state@, "parent"@) && reads::<ExportableField<bool>>(owned_state@, "mode"@) && reads::<ExportableField<bool>>(owned_state@, "_low"@) && reads::<ExportableField<Vec<u8>>>(owned_state@, "on_x"@) && reads::<ExportableField<u32>>(owned_state@, "owned_state"@)),
        ret matches Ok(r) ==> r.base.named() == "Node3D"@ && r.base.fresh() && Voidable::empty(r.tag_1) && Some(r.take) == <ExportableField<String> as Exportable>::dec(owned_state@["take"@]) && Voidable::empty(r.root) && Some(r.children) == <ExportableField<bool> as Exportable>::dec(owned_state@["children"@]) && Voidable::empty(r.owner) && Voidable::empty(r.x10) && Some(r.parent) == <ExportableField<u32> as Exportable>::dec(owned_state@["parent"@]) && Some(r.mode) == <ExportableField<bool> as Exportable>::dec(owned_state@["mode"@]) && Voidable::empty(r.rid) && Some(r._low) == <ExportableField<bool> as Exportable>::dec(owned_state@["_low"@]) && Voidable::empty(r.a) && Some(r.on_x) == <ExportableField<Vec<u8>> as Exportable>::dec(owned_state@["on_x"@]) && Voidable::empty(r.wrap) && Voidable::empty(r.ty) && Voidable::empty(r.unique) && Voidable::empty(r.declare) && Voidable::empty(r.signal) && Some(r.owned_state) == <ExportableField<u32> as Exportable>::dec(owned_state@["owned_state"@]) && Voidable::empty(r.kind) && Voidable::empty(r.name),
    //@ hint entry
        proof { reveal_strlit("take"); assert("take"@.len() == 4); reveal_strlit("children"); assert("children"@.len() == 8); reveal_strlit("parent"); assert("parent"@.len() == 6); reveal_strlit("mode"); assert("mode"@.len() == 4); reveal_strlit("_low"); assert("_low"@.len() == 4); reveal_strlit("on_x"); assert("on_x"@.len() == 4); reveal_strlit("owned_state"); assert("owned_state"@.len() == 11); assert("mode"@[0] != "take"@[0]); assert("_low"@[0] != "take"@[0]); assert("_low"@[0] != "mode"@[0]); assert("on_x"@[0] != "take"@[0]); assert("on_x"@[0] != "mode"@[0]); assert("on_x"@[0] != "_low"@[0]); }
//@ end
//@ fn @classes <Node for Node3D>::process_mode
    ensures ret is Inherit,
//@ end
    /// Through Deref.
    pub fn set_name_unchecked(&mut self, name: &str)
        ensures final(self).base.named() == name@, final(self).base.fresh() == old(self).base.fresh(), final(self).tag_1 == old(self).tag_1, final(self).take == old(self).take, final(self).root == old(self).root, final(self).children == old(self).children, final(self).owner == old(self).owner, final(self).x10 == old(self).x10, final(self).parent == old(self).parent, final(self).mode == old(self).mode, final(self).rid == old(self).rid, final(self)._low == old(self)._low, final(self).a == old(self).a, final(self).on_x == old(self).on_x, final(self).wrap == old(self).wrap, final(self).ty == old(self).ty, final(self).unique == old(self).unique, final(self).declare == old(self).declare, final(self).signal == old(self).signal, final(self).owned_state == old(self).owned_state, final(self).kind == old(self).kind, final(self).name == old(self).name,
    { self.deref_mut().set_name_unchecked(name) }
}

// SCREAM
//@ type @classes SCREAM
impl SCREAM {
//@ fn @classes SCREAM::new
    ensures
        ret.base.named() == "SCREAM"@, ret.base.fresh(),
        idle(ret.aa),
        preset(ret.unique.0),
        preset(ret.tp_.0),
        ret.camelCase == Field::Valid(camelCase),
        preset(ret._init.0),
        preset(ret.children.0),
        ret.a == Field::Valid(a),
        ret.x10 == Field::Valid(-4611686018427387904i64),
        ret.wrap.0 == 0u32,
        ret.x1.0 == false,
        preset(ret.r_type.0),
        preset(ret.is_ghost.0),
//@ end
//@ fn @classes <Clone for SCREAM>::clone | path=::core::clone::Clone::clone=>Copied::clone
    ensures
        same_base(self.base, ret.base),
        Copied::copied(self.aa, ret.aa),
        Copied::copied(self.unique, ret.unique),
        Copied::copied(self.tp_, ret.tp_),
        Copied::copied(self.camelCase, ret.camelCase),
        Copied::copied(self._init, ret._init),
        Copied::copied(self.children, ret.children),
        Copied::copied(self.a, ret.a),
        Copied::copied(self.x10, ret.x10),
        Copied::copied(self.wrap, ret.wrap),
        Copied::copied(self.x1, ret.x1),
        Copied::copied(self.r_type, ret.r_type),
        Copied::copied(self.is_ghost, ret.is_ghost),
//@ end
//@ fn @classes <Deref for SCREAM>::deref
    ensures *ret == self.base,
//@ end
//@ fn @classes <DerefMut for SCREAM>::deref_mut
    ensures *ret == old(self).base, final(self).base == *final(ret),
        final(self).aa == old(self).aa,
        final(self).unique == old(self).unique,
        final(self).tp_ == old(self).tp_,
        final(self).camelCase == old(self).camelCase,
        final(self)._init == old(self)._init,
        final(self).children == old(self).children,
        final(self).a == old(self).a,
        final(self).x10 == old(self).x10,
        final(self).wrap == old(self).wrap,
        final(self).x1 == old(self).x1,
        final(self).r_type == old(self).r_type,
        final(self).is_ghost == old(self).is_ghost,
//@ end
//@ fn @classes <NodeAbstract for SCREAM>::base | as=base_of
    ensures *ret == self.base,
//@ end
//@ fn @classes <NodeAbstract for SCREAM>::base_mut | as=base_of_mut
    ensures *ret == old(self).base, final(self).base == *final(ret),
        final(self).aa == old(self).aa,
        final(self).unique == old(self).unique,
        final(self).tp_ == old(self).tp_,
        final(self).camelCase == old(self).camelCase,
        final(self)._init == old(self)._init,
        final(self).children == old(self).children,
        final(self).a == old(self).a,
        final(self).x10 == old(self).x10,
        final(self).wrap == old(self).wrap,
        final(self).x1 == old(self).x1,
        final(self).r_type == old(self).r_type,
        final(self).is_ghost == old(self).is_ghost,
//@ end
//@ fn @classes <Registered for SCREAM>::save_from_owned
    ensures
        ret@.dom().subset_of(set!["aa"@, "unique"@, "tp_"@, "camelCase"@, "_init"@, "children"@, "a"@, "x10"@, "wrap"@, "x1"@, "r_type"@, "is_ghost"@]),
        ret@.contains_key("aa"@) ==> copy_of(ret@["aa"@], self.aa),
        ret@.contains_key("unique"@) ==> copy_of(ret@["unique"@], self.unique),
        ret@.contains_key("tp_"@) && copy_of(ret@["tp_"@], self.tp_),
        ret@.contains_key("camelCase"@) ==> copy_of(ret@["camelCase"@], self.camelCase),
        ret@.contains_key("_init"@) ==> copy_of(ret@["_init"@], self._init),
        ret@.contains_key("children"@) ==> copy_of(ret@["children"@], self.children),
        ret@.contains_key("a"@) ==> copy_of(ret@["a"@], self.a),
        ret@.contains_key("x10"@) ==> copy_of(ret@["x10"@], self.x10),
        ret@.contains_key("wrap"@) && copy_of(ret@["wrap"@], self.wrap),
        ret@.contains_key("x1"@) && copy_of(ret@["x1"@], self.x1),
        ret@.contains_key("r_type"@) && copy_of(ret@["r_type"@], self.r_type),
        ret@.contains_key("is_ghost"@) ==> copy_of(ret@["is_ghost"@], self.is_ghost),
    //@ hint entry
        proof { reveal_strlit("aa"); assert("aa"@.len() == 2); reveal_strlit("unique"); assert("unique"@.len() == 6); reveal_strlit("tp_"); assert("tp_"@.len() == 3); reveal_strlit("camelCase"); assert("camelCase"@.len() == 9); reveal_strlit("_init"); assert("_init"@.len() == 5); reveal_strlit("children"); assert("children"@.len() == 8); reveal_strlit("a"); assert("a"@.len() == 1); reveal_strlit("x10"); assert("x10"@.len() == 3); reveal_strlit("wrap"); assert("wrap"@.len() == 4); reveal_strlit("x1"); assert("x1"@.len() == 2); reveal_strlit("r_type"); assert("r_type"@.len() == 6); reveal_strlit("is_ghost"); assert("is_ghost"@.len() == 8); assert("x10"@[0] != "tp_"@[0]); assert("x1"@[0] != "aa"@[0]); assert("r_type"@[0] != "unique"@[0]); assert("is_ghost"@[0] != "children"@[0]); }
//@ end
//@ fn @classes <Registered for SCREAM>::load_from_owned
    ensures
        ret is Ok == (reads::<ExportableField<Option<i8>>>(owned_state@, "tp_"@) && reads::<ExportableField<u32>>(owned_state@, "wrap"@) && reads::<ExportableField<bool>>(owned_state@, "x1"@) && reads::<ExportableField<u16>>(owned_state@, "r_type"@)),
        ret matches Ok(r) ==> r.base.named() == "SCREAM"@ && r.base.fresh() && Voidable::empty(r.aa) && Voidable::empty(r.unique) && Some(r.tp_) == <ExportableField<Option<i8>> as Exportable>::dec(owned_state@["tp_"@]) && Voidable::empty(r.camelCase) && Voidable::empty(r._init) && Voidable::empty(r.children) && Voidable::empty(r.a) && Voidable::empty(r.x10) && Some(r.wrap) == <ExportableField<u32> as Exportable>::dec(owned_state@["wrap"@]) && Some(r.x1) == <ExportableField<bool> as Exportable>::dec(owned_state@["x1"@]) && Some(r.r_type) == <ExportableField<u16> as Exportable>::dec(owned_state@["r_type"@]) && Voidable::empty(r.is_ghost),
    //@ hint entry
        proof { reveal_strlit("tp_"); assert("tp_"@.len() == 3); reveal_strlit("wrap"); assert("wrap"@.len() == 4); reveal_strlit("x1"); assert("x1"@.len() == 2); reveal_strlit("r_type"); assert("r_type"@.len() == 6); }
//@ end
//@ fn @classes <Node for SCREAM>::process_mode
    ensures ret is Inherit,
//@ end
    /// Through Deref.
    pub fn set_name_unchecked(&mut self, name: &str)
        ensures final(self).base.named() == name@, final(self).base.fresh() == old(self).base.fresh(), final(self).aa == old(self).aa, final(self).unique == old(self).unique, final(self).tp_ == old(self).tp_, final(self).camelCase == old(self).camelCase, final(self)._init == old(self)._init, final(self).children == old(self).children, final(self).a == old(self).a, final(self).x10 == old(self).x10, final(self).wrap == old(self).wrap, final(self).x1 == old(self).x1, final(self).r_type == old(self).r_type, final(self).is_ghost == old(self).is_ghost,
    { self.deref_mut().set_name_unchecked(name) }
}

// X
//@ type @classes X
impl X {
//@ fn @classes X::new
    ensures
        ret.base.named() == "X"@, ret.base.fresh(),
        idle(ret.r_type),
        idle(ret.rid),
        ret._init == Field::Valid(_init),
        ret.tag_11 == Field::Valid(5i64),
        ret.field == Field::Valid(field),
        ret.new == UniqueField::Valid(new),
        ret.a_.0 == a_,
        ret.x_1 == Field::Valid(x_1),
        ret.count_of == Field::Valid(127i8),
        preset(ret.parent.0),
        ret.args == Field::Valid(args),
        preset(ret.tag_2.0),
//@ end
//@ fn @classes <Clone for X>::clone | path=::core::clone::Clone::clone=>Copied::clone
    ensures
        same_base(self.base, ret.base),
        Copied::copied(self.r_type, ret.r_type),
        Copied::copied(self.rid, ret.rid),
        Copied::copied(self._init, ret._init),
        Copied::copied(self.tag_11, ret.tag_11),
        Copied::copied(self.field, ret.field),
        Copied::copied(self.new, ret.new),
        Copied::copied(self.a_, ret.a_),
        Copied::copied(self.x_1, ret.x_1),
        Copied::copied(self.count_of, ret.count_of),
        Copied::copied(self.parent, ret.parent),
        Copied::copied(self.args, ret.args),
        Copied::copied(self.tag_2, ret.tag_2),
//@ end
//@ fn @classes <Deref for X>::deref
    ensures *ret == self.base,
//@ end
//@ fn @classes <DerefMut for X>::deref_mut
    ensures *ret == old(self).base, final(self).base == *final(ret),
        final(self).r_type == old(self).r_type,
        final(self).rid == old(self).rid,
        final(self)._init == old(self)._init,
        final(self).tag_11 == old(self).tag_11,
        final(self).field == old(self).field,
        final(self).new == old(self).new,
        final(self).a_ == old(self).a_,
        final(self).x_1 == old(self).x_1,
        final(self).count_of == old(self).count_of,
        final(self).parent == old(self).parent,
        final(self).args == old(self).args,
        final(self).tag_2 == old(self).tag_2,
//@ end
//@ fn @classes <NodeAbstract for X>::base | as=base_of
    ensures *ret == self.base,
//@ end
//@ fn @classes <NodeAbstract for X>::base_mut | as=base_of_mut
    ensures *ret == old(self).base, final(self).base == *final(ret),
        final(self).r_type == old(self).r_type,
        final(self).rid == old(self).rid,
        final(self)._init == old(self)._init,
        final(self).tag_11 == old(self).tag_11,
        final(self).field == old(self).field,
        final(self).new == old(self).new,
        final(self).a_ == old(self).a_,
        final(self).x_1 == old(self).x_1,
        final(self).count_of == old(self).count_of,
        final(self).parent == old(self).parent,
        final(self).args == old(self).args,
        final(self).tag_2 == old(self).tag_2,
//@ end
//@ fn @classes <Registered for X>::save_from_owned
    ensures
        ret@.dom().subset_of(set!["r_type"@, "rid"@, "_init"@, "tag_11"@, "field"@, "new"@, "a_"@, "x_1"@, "count_of"@, "parent"@, "args"@, "tag_2"@]),
        ret@.contains_key("r_type"@) ==> copy_of(ret@["r_type"@], self.r_type),
        ret@.contains_key("rid"@) ==> copy_of(ret@["rid"@], self.rid),
        ret@.contains_key("_init"@) ==> copy_of(ret@["_init"@], self._init),
        ret@.contains_key("tag_11"@) ==> copy_of(ret@["tag_11"@], self.tag_11),
        ret@.contains_key("field"@) ==> copy_of(ret@["field"@], self.field),
        ret@.contains_key("new"@) ==> copy_of(ret@["new"@], self.new),
        ret@.contains_key("a_"@) && copy_of(ret@["a_"@], self.a_),
        ret@.contains_key("x_1"@) ==> copy_of(ret@["x_1"@], self.x_1),
        ret@.contains_key("count_of"@) ==> copy_of(ret@["count_of"@], self.count_of),
        ret@.contains_key("parent"@) && copy_of(ret@["parent"@], self.parent),
        ret@.contains_key("args"@) ==> copy_of(ret@["args"@], self.args),
        ret@.contains_key("tag_2"@) ==> copy_of(ret@["tag_2"@], self.tag_2),
    //@ hint entry
        proof { reveal_strlit("r_type"); assert("r_type"@.len() == 6); reveal_strlit("rid"); assert("rid"@.len() == 3); reveal_strlit("_init"); assert("_init"@.len() == 5); reveal_strlit("tag_11"); assert("tag_11"@.len() == 6); reveal_strlit("field"); assert("field"@.len() == 5); reveal_strlit("new"); assert("new"@.len() == 3); reveal_strlit("a_"); assert("a_"@.len() == 2); reveal_strlit("x_1"); assert("x_1"@.len() == 3); reveal_strlit("count_of"); assert("count_of"@.len() == 8); reveal_strlit("parent"); assert("parent"@.len() == 6); reveal_strlit("args"); assert("args"@.len() == 4); reveal_strlit("tag_2"); assert("tag_2"@.len() == 5); assert("tag_11"@[0] != "r_type"@[0]); assert("field"@[0] != "_init"@[0]); assert("new"@[0] != "rid"@[0]); assert("x_1"@[0] != "rid"@[0]); assert("x_1"@[0] != "new"@[0]); assert("parent"@[0] != "r_type"@[0]); assert("parent"@[0] != "tag_11"@[0]); assert("tag_2"@[0] != "_init"@[0]); assert("tag_2"@[0] != "field"@[0]); }
//@ end
//@ fn @classes <Registered for X>::load_from_owned
    ensures
        ret is Ok == (reads::<ExportableField<Vec<u8>>>(owned_state@, "a_"@) && reads::<ExportableField<u8>>(owned_state@, "parent"@)),
        ret matches Ok(r) ==> r.base.named() == "X"@ && r.base.fresh() && Voidable::empty(r.r_type) && Voidable::empty(r.rid) && Voidable::empty(r._init) && Voidable::empty(r.tag_11) && Voidable::empty(r.field) && Voidable::empty(r.new) && Some(r.a_) == <ExportableField<Vec<u8>> as Exportable>::dec(owned_state@["a_"@]) && Voidable::empty(r.x_1) && Voidable::empty(r.count_of) && Some(r.parent) == <ExportableField<u8> as Exportable>::dec(owned_state@["parent"@]) && Voidable::empty(r.args) && Voidable::empty(r.tag_2),
    //@ hint entry
        proof { reveal_strlit("a_"); assert("a_"@.len() == 2); reveal_strlit("parent"); assert("parent"@.len() == 6); }
//@ end
//@ fn @classes <Node for X>::process_mode
    ensures ret is Always,
//@ end
    /// Through Deref.
    pub fn set_name_unchecked(&mut self, name: &str)
        ensures final(self).base.named() == name@, final(self).base.fresh() == old(self).base.fresh(), final(self).r_type == old(self).r_type, final(self).rid == old(self).rid, final(self)._init == old(self)._init, final(self).tag_11 == old(self).tag_11, final(self).field == old(self).field, final(self).new == old(self).new, final(self).a_ == old(self).a_, final(self).x_1 == old(self).x_1, final(self).count_of == old(self).count_of, final(self).parent == old(self).parent, final(self).args == old(self).args, final(self).tag_2 == old(self).tag_2,
    { self.deref_mut().set_name_unchecked(name) }
}

// Under_Score
//@ type @classes Under_Score
impl Under_Score {
//@ fn @classes Under_Score::new
    ensures
        ret.base.named() == "Under_Score"@, ret.base.fresh(),
        idle(ret.mode),
        preset(ret.this.0),
        preset(ret.y.0),
        ret.ty == Field::Valid(ty),
        preset(ret.value.0),
//@ end
//@ fn @classes <Clone for Under_Score>::clone | path=::core::clone::Clone::clone=>Copied::clone
    ensures
        same_base(self.base, ret.base),
        Copied::copied(self.mode, ret.mode),
        Copied::copied(self.this, ret.this),
        Copied::copied(self.y, ret.y),
        Copied::copied(self.ty, ret.ty),
        Copied::copied(self.value, ret.value),
//@ end
//@ fn @classes <Deref for Under_Score>::deref
    ensures *ret == self.base,
//@ end
//@ fn @classes <DerefMut for Under_Score>::deref_mut
    ensures *ret == old(self).base, final(self).base == *final(ret),
        final(self).mode == old(self).mode,
        final(self).this == old(self).this,
        final(self).y == old(self).y,
        final(self).ty == old(self).ty,
        final(self).value == old(self).value,
//@ end
//@ fn @classes <NodeAbstract for Under_Score>::base | as=base_of
    ensures *ret == self.base,
//@ end
//@ fn @classes <NodeAbstract for Under_Score>::base_mut | as=base_of_mut
    ensures *ret == old(self).base, final(self).base == *final(ret),
        final(self).mode == old(self).mode,
        final(self).this == old(self).this,
        final(self).y == old(self).y,
        final(self).ty == old(self).ty,
        final(self).value == old(self).value,
//@ end
//@ fn @classes <Registered for Under_Score>::save_from_owned
    ensures
        ret@.dom().subset_of(set!["mode"@, "this"@, "y"@, "ty"@, "value"@]),
        ret@.contains_key("mode"@) ==> copy_of(ret@["mode"@], self.mode),
        ret@.contains_key("this"@) ==> copy_of(ret@["this"@], self.this),
        ret@.contains_key("y"@) ==> copy_of(ret@["y"@], self.y),
        ret@.contains_key("ty"@) ==> copy_of(ret@["ty"@], self.ty),
        ret@.contains_key("value"@) ==> copy_of(ret@["value"@], self.value),
    //@ hint entry
        proof { reveal_strlit("mode"); assert("mode"@.len() == 4); reveal_strlit("this"); assert("this"@.len() == 4); reveal_strlit("y"); assert("y"@.len() == 1); reveal_strlit("ty"); assert("ty"@.len() == 2); reveal_strlit("value"); assert("value"@.len() == 5); assert("this"@[0] != "mode"@[0]); }
//@ end
//@ fn @classes <Registered for Under_Score>::load_from_owned
    ensures
        ret is Ok == (true),
        ret matches Ok(r) ==> r.base.named() == "Under_Score"@ && r.base.fresh() && Voidable::empty(r.mode) && Voidable::empty(r.this) && Voidable::empty(r.y) && Voidable::empty(r.ty) && Voidable::empty(r.value),
//@ end
    /// Through Deref.
    pub fn set_name_unchecked(&mut self, name: &str)
        ensures final(self).base.named() == name@, final(self).base.fresh() == old(self).base.fresh(), final(self).mode == old(self).mode, final(self).this == old(self).this, final(self).y == old(self).y, final(self).ty == old(self).ty, final(self).value == old(self).value,
    { self.deref_mut().set_name_unchecked(name) }
}

// _Low
//@ type @classes _Low
impl _Low {
//@ fn @classes _Low::new
    ensures
        ret.base.named() == "_Low"@, ret.base.fresh(),
        idle(ret.data),
        idle(ret.a_),
        idle(ret.default),
        ret.mode.0 == mode,
        preset(ret.args.0),
        ret.x == Field::Valid(x),
        ret.bases.0 == bases,
        ret.x1 == UniqueField::Valid(0i32),
        ret.init == Field::Valid(true),
        ret.__deep == UniqueField::Valid(__deep),
        ret.tag_2 == Field::Valid(tag_2),
        ret.camelCase.0 == camelCase,
        ret.r_type.0 == r_type,
        ret.tp_.0 == -2147483647i32,
        ret._init == UniqueField::Valid(_init),
        ret.children.0 == 0u64,
        ret.name.0 == name,
        ret.on_x == UniqueField::Valid(on_x),
        ret.tag_1 == UniqueField::Valid(2u32),
        ret.root == UniqueField::Valid(root),
        ret.rid == UniqueField::Valid(rid),
        ret.tag_11.0 == tag_11,
        preset(ret.class.0),
        ret.count_of == UniqueField::Valid(count_of),
//@ end
//@ fn @classes <Clone for _Low>::clone | path=::core::clone::Clone::clone=>Copied::clone
    ensures
        same_base(self.base, ret.base),
        Copied::copied(self.data, ret.data),
        Copied::copied(self.a_, ret.a_),
        Copied::copied(self.default, ret.default),
        Copied::copied(self.mode, ret.mode),
        Copied::copied(self.args, ret.args),
        Copied::copied(self.x, ret.x),
        Copied::copied(self.bases, ret.bases),
        Copied::copied(self.x1, ret.x1),
        Copied::copied(self.init, ret.init),
        Copied::copied(self.__deep, ret.__deep),
        Copied::copied(self.tag_2, ret.tag_2),
        Copied::copied(self.camelCase, ret.camelCase),
        Copied::copied(self.r_type, ret.r_type),
        Copied::copied(self.tp_, ret.tp_),
        Copied::copied(self._init, ret._init),
        Copied::copied(self.children, ret.children),
        Copied::copied(self.name, ret.name),
        Copied::copied(self.on_x, ret.on_x),
        Copied::copied(self.tag_1, ret.tag_1),
        Copied::copied(self.root, ret.root),
        Copied::copied(self.rid, ret.rid),
        Copied::copied(self.tag_11, ret.tag_11),
        Copied::copied(self.class, ret.class),
        Copied::copied(self.count_of, ret.count_of),
//@ end
//@ fn @classes <Deref for _Low>::deref
    ensures *ret == self.base,
//@ end
//@ fn @classes <DerefMut for _Low>::deref_mut
    ensures *ret == old(self).base, final(self).base == *final(ret),
        final(self).data == old(self).data,
        final(self).a_ == old(self).a_,
        final(self).default == old(self).default,
        final(self).mode == old(self).mode,
        final(self).args == old(self).args,
        final(self).x == old(self).x,
        final(self).bases == old(self).bases,
        final(self).x1 == old(self).x1,
        final(self).init == old(self).init,
        final(self).__deep == old(self).__deep,
        final(self).tag_2 == old(self).tag_2,
        final(self).camelCase == old(self).camelCase,
        final(self).r_type == old(self).r_type,
        final(self).tp_ == old(self).tp_,
        final(self)._init == old(self)._init,
        final(self).children == old(self).children,
        final(self).name == old(self).name,
        final(self).on_x == old(self).on_x,
        final(self).tag_1 == old(self).tag_1,
        final(self).root == old(self).root,
        final(self).rid == old(self).rid,
        final(self).tag_11 == old(self).tag_11,
        final(self).class == old(self).class,
        final(self).count_of == old(self).count_of,
//@ end
//@ fn @classes <NodeAbstract for _Low>::base | as=base_of
    ensures *ret == self.base,
//@ end
//@ fn @classes <NodeAbstract for _Low>::base_mut | as=base_of_mut
    ensures *ret == old(self).base, final(self).base == *final(ret),
        final(self).data == old(self).data,
        final(self).a_ == old(self).a_,
        final(self).default == old(self).default,
        final(self).mode == old(self).mode,
        final(self).args == old(self).args,
        final(self).x == old(self).x,
        final(self).bases == old(self).bases,
        final(self).x1 == old(self).x1,
        final(self).init == old(self).init,
        final(self).__deep == old(self).__deep,
        final(self).tag_2 == old(self).tag_2,
        final(self).camelCase == old(self).camelCase,
        final(self).r_type == old(self).r_type,
        final(self).tp_ == old(self).tp_,
        final(self)._init == old(self)._init,
        final(self).children == old(self).children,
        final(self).name == old(self).name,
        final(self).on_x == old(self).on_x,
        final(self).tag_1 == old(self).tag_1,
        final(self).root == old(self).root,
        final(self).rid == old(self).rid,
        final(self).tag_11 == old(self).tag_11,
        final(self).class == old(self).class,
        final(self).count_of == old(self).count_of,
//@ end
//@ fn @classes <Registered for _Low>::save_from_owned
    ensures
        ret@.dom().subset_of(set!["data"@, "a_"@, "default"@, "mode"@, "args"@, "x"@, "bases"@, "x1"@, "init"@, "__deep"@, "tag_2"@, "camelCase"@, "r_type"@, "tp_"@, "_init"@, "children"@, "name"@, "on_x"@, "tag_1"@, "root"@, "rid"@, "tag_11"@, "class"@, "count_of"@]),
        ret@.contains_key("data"@) ==> copy_of(ret@["data"@], self.data),
        ret@.contains_key("a_"@) ==> copy_of(ret@["a_"@], self.a_),
        ret@.contains_key("default"@) ==> copy_of(ret@["default"@], self.default),
        ret@.contains_key("mode"@) && copy_of(ret@["mode"@], self.mode),
        ret@.contains_key("args"@) ==> copy_of(ret@["args"@], self.args),
        ret@.contains_key("x"@) ==> copy_of(ret@["x"@], self.x),
        ret@.contains_key("bases"@) && copy_of(ret@["bases"@], self.bases),
        ret@.contains_key("x1"@) ==> copy_of(ret@["x1"@], self.x1),
        ret@.contains_key("init"@) ==> copy_of(ret@["init"@], self.init),
        ret@.contains_key("__deep"@) ==> copy_of(ret@["__deep"@], self.__deep),
        ret@.contains_key("tag_2"@) ==> copy_of(ret@["tag_2"@], self.tag_2),
        ret@.contains_key("camelCase"@) && copy_of(ret@["camelCase"@], self.camelCase),
        ret@.contains_key("r_type"@) && copy_of(ret@["r_type"@], self.r_type),
        ret@.contains_key("tp_"@) && copy_of(ret@["tp_"@], self.tp_),
        ret@.contains_key("_init"@) ==> copy_of(ret@["_init"@], self._init),
        ret@.contains_key("children"@) && copy_of(ret@["children"@], self.children),
        ret@.contains_key("name"@) && copy_of(ret@["name"@], self.name),
        ret@.contains_key("on_x"@) ==> copy_of(ret@["on_x"@], self.on_x),
        ret@.contains_key("tag_1"@) ==> copy_of(ret@["tag_1"@], self.tag_1),
        ret@.contains_key("root"@) ==> copy_of(ret@["root"@], self.root),
        ret@.contains_key("rid"@) ==> copy_of(ret@["rid"@], self.rid),
        ret@.contains_key("tag_11"@) && copy_of(ret@["tag_11"@], self.tag_11),
        ret@.contains_key("class"@) ==> copy_of(ret@["class"@], self.class),
        ret@.contains_key("count_of"@) ==> copy_of(ret@["count_of"@], self.count_of),
    //@ hint entry
        proof { reveal_strlit("data"); assert("data"@.len() == 4); reveal_strlit("a_"); assert("a_"@.len() == 2); reveal_strlit("default"); assert("default"@.len() == 7); reveal_strlit("mode"); assert("mode"@.len() == 4); reveal_strlit("args"); assert("args"@.len() == 4); reveal_strlit("x"); assert("x"@.len() == 1); reveal_strlit("bases"); assert("bases"@.len() == 5); reveal_strlit("x1"); assert("x1"@.len() == 2); reveal_strlit("init"); assert("init"@.len() == 4); reveal_strlit("__deep"); assert("__deep"@.len() == 6); reveal_strlit("tag_2"); assert("tag_2"@.len() == 5); reveal_strlit("camelCase"); assert("camelCase"@.len() == 9); reveal_strlit("r_type"); assert("r_type"@.len() == 6); reveal_strlit("tp_"); assert("tp_"@.len() == 3); reveal_strlit("_init"); assert("_init"@.len() == 5); reveal_strlit("children"); assert("children"@.len() == 8); reveal_strlit("name"); assert("name"@.len() == 4); reveal_strlit("on_x"); assert("on_x"@.len() == 4); reveal_strlit("tag_1"); assert("tag_1"@.len() == 5); reveal_strlit("root"); assert("root"@.len() == 4); reveal_strlit("rid"); assert("rid"@.len() == 3); reveal_strlit("tag_11"); assert("tag_11"@.len() == 6); reveal_strlit("class"); assert("class"@.len() == 5); reveal_strlit("count_of"); assert("count_of"@.len() == 8); assert("mode"@[0] != "data"@[0]); assert("args"@[0] != "data"@[0]); assert("args"@[0] != "mode"@[0]); assert("x1"@[0] != "a_"@[0]); assert("init"@[0] != "data"@[0]); assert("init"@[0] != "mode"@[0]); assert("init"@[0] != "args"@[0]); assert("tag_2"@[0] != "bases"@[0]); assert("r_type"@[0] != "__deep"@[0]); assert("_init"@[0] != "bases"@[0]); assert("_init"@[0] != "tag_2"@[0]); assert("name"@[0] != "data"@[0]); assert("name"@[0] != "mode"@[0]); assert("name"@[0] != "args"@[0]); assert("name"@[0] != "init"@[0]); assert("on_x"@[0] != "data"@[0]); assert("on_x"@[0] != "mode"@[0]); assert("on_x"@[0] != "args"@[0]); assert("on_x"@[0] != "init"@[0]); assert("on_x"@[0] != "name"@[0]); assert("tag_1"@[0] != "bases"@[0]); assert("tag_1"@[4] != "tag_2"@[4]); assert("tag_1"@[0] != "_init"@[0]); assert("root"@[0] != "data"@[0]); assert("root"@[0] != "mode"@[0]); assert("root"@[0] != "args"@[0]); assert("root"@[0] != "init"@[0]); assert("root"@[0] != "name"@[0]); assert("root"@[0] != "on_x"@[0]); assert("rid"@[0] != "tp_"@[0]); assert("tag_11"@[0] != "__deep"@[0]); assert("tag_11"@[0] != "r_type"@[0]); assert("class"@[0] != "bases"@[0]); assert("class"@[0] != "tag_2"@[0]); assert("class"@[0] != "_init"@[0]); assert("class"@[0] != "tag_1"@[0]); assert("count_of"@[1] != "children"@[1]); }
//@ end
//@ fn @classes <Registered for _Low>::load_from_owned
    ensures
        ret is Ok == (reads::<ExportableField<u32>>(owned_state@, "mode"@) && reads::<ExportableField<i32>>(owned_state@, "bases"@) && reads::<ExportableField<u64>>(owned_state@, "camelCase"@) && reads::<ExportableField<i32>>(owned_state@, "r_type"@) && reads::<ExportableField<i32>>(owned_state@, "tp_"@) && reads::<ExportableField<u64>>(owned_state@, "children"@) && reads::<ExportableField<String>>(owned_state@, "name"@) && reads::<ExportableField<Vec<u8>>>(owned_state@, "tag_11"@)),
        ret matches Ok(r) ==> r.base.named() == "_Low"@ && r.base.fresh() && Voidable::empty(r.data) && Voidable::empty(r.a_) && Voidable::empty(r.default) && Some(r.mode) == <ExportableField<u32> as Exportable>::dec(owned_state@["mode"@]) && Voidable::empty(r.args) && Voidable::empty(r.x) && Some(r.bases) == <ExportableField<i32> as Exportable>::dec(owned_state@["bases"@]) && Voidable::empty(r.x1) && Voidable::empty(r.init) && Voidable::empty(r.__deep) && Voidable::empty(r.tag_2) && Some(r.camelCase) == <ExportableField<u64> as Exportable>::dec(owned_state@["camelCase"@]) && Some(r.r_type) == <ExportableField<i32> as Exportable>::dec(owned_state@["r_type"@]) && Some(r.tp_) == <ExportableField<i32> as Exportable>::dec(owned_state@["tp_"@]) && Voidable::empty(r._init) && Some(r.children) == <ExportableField<u64> as Exportable>::dec(owned_state@["children"@]) && Some(r.name) == <ExportableField<String> as Exportable>::dec(owned_state@["name"@]) && Voidable::empty(r.on_x) && Voidable::empty(r.tag_1) && Voidable::empty(r.root) && Voidable::empty(r.rid) && Some(r.tag_11) == <ExportableField<Vec<u8>> as Exportable>::dec(owned_state@["tag_11"@]) && Voidable::empty(r.class) && Voidable::empty(r.count_of),
    //@ hint entry
        proof { reveal_strlit("mode"); assert("mode"@.len() == 4); reveal_strlit("bases"); assert("bases"@.len() == 5); reveal_strlit("camelCase"); assert("camelCase"@.len() == 9); reveal_strlit("r_type"); assert("r_type"@.len() == 6); reveal_strlit("tp_"); assert("tp_"@.len() == 3); reveal_strlit("children"); assert("children"@.len() == 8); reveal_strlit("name"); assert("name"@.len() == 4); reveal_strlit("tag_11"); assert("tag_11"@.len() == 6); assert("name"@[0] != "mode"@[0]); assert("tag_11"@[0] != "r_type"@[0]); }
//@ end
    /// Through Deref.
    pub fn set_name_unchecked(&mut self, name: &str)
        ensures final(self).base.named() == name@, final(self).base.fresh() == old(self).base.fresh(), final(self).data == old(self).data, final(self).a_ == old(self).a_, final(self).default == old(self).default, final(self).mode == old(self).mode, final(self).args == old(self).args, final(self).x == old(self).x, final(self).bases == old(self).bases, final(self).x1 == old(self).x1, final(self).init == old(self).init, final(self).__deep == old(self).__deep, final(self).tag_2 == old(self).tag_2, final(self).camelCase == old(self).camelCase, final(self).r_type == old(self).r_type, final(self).tp_ == old(self).tp_, final(self)._init == old(self)._init, final(self).children == old(self).children, final(self).name == old(self).name, final(self).on_x == old(self).on_x, final(self).tag_1 == old(self).tag_1, final(self).root == old(self).root, final(self).rid == old(self).rid, final(self).tag_11 == old(self).tag_11, final(self).class == old(self).class, final(self).count_of == old(self).count_of,
    { self.deref_mut().set_name_unchecked(name) }
}

// AVeryLongClassNameThatGoesOnAndOnForever
//@ type @classes AVeryLongClassNameThatGoesOnAndOnForever
impl AVeryLongClassNameThatGoesOnAndOnForever {
//@ fn @classes AVeryLongClassNameThatGoesOnAndOnForever::new
    ensures
        ret.base.named() == "AVeryLongClassNameThatGoesOnAndOnForever"@, ret.base.fresh(),
        preset(ret.signal.0),
        ret.bases == UniqueField::Valid(65372u16),
        preset(ret.ba.0),
        ret.node.0 == node,
        preset(ret.tag_11.0),
        ret.tag_1.0 == 65535u16,
        ret.is_ghost.0 == is_ghost,
        ret.mode == Field::Valid(0u32),
        ret.a_.0 == 4294967295u32,
        preset(ret.aa.0),
        preset(ret.depth.0),
        ret.name == Field::Valid(name),
//@ end
//@ fn @classes <Clone for AVeryLongClassNameThatGoesOnAndOnForever>::clone | path=::core::clone::Clone::clone=>Copied::clone
    ensures
        same_base(self.base, ret.base),
        Copied::copied(self.signal, ret.signal),
        Copied::copied(self.bases, ret.bases),
        Copied::copied(self.ba, ret.ba),
        Copied::copied(self.node, ret.node),
        Copied::copied(self.tag_11, ret.tag_11),
        Copied::copied(self.tag_1, ret.tag_1),
        Copied::copied(self.is_ghost, ret.is_ghost),
        Copied::copied(self.mode, ret.mode),
        Copied::copied(self.a_, ret.a_),
        Copied::copied(self.aa, ret.aa),
        Copied::copied(self.depth, ret.depth),
        Copied::copied(self.name, ret.name),
//@ end
//@ fn @classes <Deref for AVeryLongClassNameThatGoesOnAndOnForever>::deref
    ensures *ret == self.base,
//@ end
//@ fn @classes <DerefMut for AVeryLongClassNameThatGoesOnAndOnForever>::deref_mut
    ensures *ret == old(self).base, final(self).base == *final(ret),
        final(self).signal == old(self).signal,
        final(self).bases == old(self).bases,
        final(self).ba == old(self).ba,
        final(self).node == old(self).node,
        final(self).tag_11 == old(self).tag_11,
        final(self).tag_1 == old(self).tag_1,
        final(self).is_ghost == old(self).is_ghost,
        final(self).mode == old(self).mode,
        final(self).a_ == old(self).a_,
        final(self).aa == old(self).aa,
        final(self).depth == old(self).depth,
        final(self).name == old(self).name,
//@ end
//@ fn @classes <NodeAbstract for AVeryLongClassNameThatGoesOnAndOnForever>::base | as=base_of
    ensures *ret == self.base,
//@ end
//@ fn @classes <NodeAbstract for AVeryLongClassNameThatGoesOnAndOnForever>::base_mut | as=base_of_mut
    ensures *ret == old(self).base, final(self).base == *final(ret),
        final(self).signal == old(self).signal,
        final(self).bases == old(self).bases,
        final(self).ba == old(self).ba,
        final(self).node == old(self).node,
        final(self).tag_11 == old(self).tag_11,
        final(self).tag_1 == old(self).tag_1,
        final(self).is_ghost == old(self).is_ghost,
        final(self).mode == old(self).mode,
        final(self).a_ == old(self).a_,
        final(self).aa == old(self).aa,
        final(self).depth == old(self).depth,
        final(self).name == old(self).name,
//@ end
//@ fn @classes <Registered for AVeryLongClassNameThatGoesOnAndOnForever>::save_from_owned
    ensures
        ret@.dom().subset_of(set!["signal"@, "bases"@, "ba"@, "node"@, "tag_11"@, "tag_1"@, "is_ghost"@, "mode"@, "a_"@, "aa"@, "depth"@, "name"@]),
        ret@.contains_key("signal"@) ==> copy_of(ret@["signal"@], self.signal),
        ret@.contains_key("bases"@) ==> copy_of(ret@["bases"@], self.bases),
        ret@.contains_key("ba"@) ==> copy_of(ret@["ba"@], self.ba),
        ret@.contains_key("node"@) && copy_of(ret@["node"@], self.node),
        ret@.contains_key("tag_11"@) && copy_of(ret@["tag_11"@], self.tag_11),
        ret@.contains_key("tag_1"@) && copy_of(ret@["tag_1"@], self.tag_1),
        ret@.contains_key("is_ghost"@) && copy_of(ret@["is_ghost"@], self.is_ghost),
        ret@.contains_key("mode"@) ==> copy_of(ret@["mode"@], self.mode),
        ret@.contains_key("a_"@) && copy_of(ret@["a_"@], self.a_),
        ret@.contains_key("aa"@) && copy_of(ret@["aa"@], self.aa),
        ret@.contains_key("depth"@) && copy_of(ret@["depth"@], self.depth),
        ret@.contains_key("name"@) ==> copy_of(ret@["name"@], self.name),
    //@ hint entry
        proof { reveal_strlit("signal"); assert("signal"@.len() == 6); reveal_strlit("bases"); assert("bases"@.len() == 5); reveal_strlit("ba"); assert("ba"@.len() == 2); reveal_strlit("node"); assert("node"@.len() == 4); reveal_strlit("tag_11"); assert("tag_11"@.len() == 6); reveal_strlit("tag_1"); assert("tag_1"@.len() == 5); reveal_strlit("is_ghost"); assert("is_ghost"@.len() == 8); reveal_strlit("mode"); assert("mode"@.len() == 4); reveal_strlit("a_"); assert("a_"@.len() == 2); reveal_strlit("aa"); assert("aa"@.len() == 2); reveal_strlit("depth"); assert("depth"@.len() == 5); reveal_strlit("name"); assert("name"@.len() == 4); assert("tag_11"@[0] != "signal"@[0]); assert("tag_1"@[0] != "bases"@[0]); assert("mode"@[0] != "node"@[0]); assert("a_"@[0] != "ba"@[0]); assert("aa"@[0] != "ba"@[0]); assert("aa"@[1] != "a_"@[1]); assert("depth"@[0] != "bases"@[0]); assert("depth"@[0] != "tag_1"@[0]); assert("name"@[1] != "node"@[1]); assert("name"@[0] != "mode"@[0]); }
//@ end
//@ fn @classes <Registered for AVeryLongClassNameThatGoesOnAndOnForever>::load_from_owned
    ensures
        ret is Ok == (reads::<ExportableField<Option<i8>>>(owned_state@, "node"@) && reads::<ExportableField<Vec<u8>>>(owned_state@, "tag_11"@) && reads::<ExportableField<u16>>(owned_state@, "tag_1"@) && reads::<ExportableField<Option<i8>>>(owned_state@, "is_ghost"@) && reads::<ExportableField<u32>>(owned_state@, "a_"@) && reads::<ExportableField<Vec<u8>>>(owned_state@, "aa"@) && reads::<ExportableField<u64>>(owned_state@, "depth"@)),
        ret matches Ok(r) ==> r.base.named() == "AVeryLongClassNameThatGoesOnAndOnForever"@ && r.base.fresh() && Voidable::empty(r.signal) && Voidable::empty(r.bases) && Voidable::empty(r.ba) && Some(r.node) == <ExportableField<Option<i8>> as Exportable>::dec(owned_state@["node"@]) && Some(r.tag_11) == <ExportableField<Vec<u8>> as Exportable>::dec(owned_state@["tag_11"@]) && Some(r.tag_1) == <ExportableField<u16> as Exportable>::dec(owned_state@["tag_1"@]) && Some(r.is_ghost) == <ExportableField<Option<i8>> as Exportable>::dec(owned_state@["is_ghost"@]) && Voidable::empty(r.mode) && Some(r.a_) == <ExportableField<u32> as Exportable>::dec(owned_state@["a_"@]) && Some(r.aa) == <ExportableField<Vec<u8>> as Exportable>::dec(owned_state@["aa"@]) && Some(r.depth) == <ExportableField<u64> as Exportable>::dec(owned_state@["depth"@]) && Voidable::empty(r.name),
    //@ hint entry
        proof { reveal_strlit("node"); assert("node"@.len() == 4); reveal_strlit("tag_11"); assert("tag_11"@.len() == 6); reveal_strlit("tag_1"); assert("tag_1"@.len() == 5); reveal_strlit("is_ghost"); assert("is_ghost"@.len() == 8); reveal_strlit("a_"); assert("a_"@.len() == 2); reveal_strlit("aa"); assert("aa"@.len() == 2); reveal_strlit("depth"); assert("depth"@.len() == 5); assert("aa"@[1] != "a_"@[1]); assert("depth"@[0] != "tag_1"@[0]); }
//@ end
//@ fn @classes <Node for AVeryLongClassNameThatGoesOnAndOnForever>::process_mode
    ensures ret is Inverse,
//@ end
    /// Through Deref.
    pub fn set_name_unchecked(&mut self, name: &str)
        ensures final(self).base.named() == name@, final(self).base.fresh() == old(self).base.fresh(), final(self).signal == old(self).signal, final(self).bases == old(self).bases, final(self).ba == old(self).ba, final(self).node == old(self).node, final(self).tag_11 == old(self).tag_11, final(self).tag_1 == old(self).tag_1, final(self).is_ghost == old(self).is_ghost, final(self).mode == old(self).mode, final(self).a_ == old(self).a_, final(self).aa == old(self).aa, final(self).depth == old(self).depth, final(self).name == old(self).name,
    { self.deref_mut().set_name_unchecked(name) }
}

// Base
//@ type @classes Base
impl Base {
//@ fn @classes Base::new
    ensures
        ret.base.named() == "Base"@, ret.base.fresh(),
        idle(ret.scene),
        idle(ret.value),
        preset(ret.status.0),
        ret.ba == UniqueField::Valid(-127i8),
        preset(ret.tp_.0),
        ret.data.0 == 1u8,
        ret.signal.0 == -1248872451i32,
        ret.count_of.0 == count_of,
        ret.process_mode == UniqueField::Valid(826497231i32),
        ret.mode.0 == mode,
        ret.args == Field::Valid(args),
        ret.field == UniqueField::Valid(field),
        ret.init == Field::Valid(init),
        preset(ret.declare.0),
        ret.x_1 == UniqueField::Valid(x_1),
        preset(ret.owner.0),
        ret.map == Field::Valid(1u8),
        preset(ret.wrap.0),
        ret.tag_2 == Field::Valid(tag_2),
        ret.b.0 == 2147483647i32,
//@ end
//@ fn @classes <Clone for Base>::clone | path=::core::clone::Clone::clone=>Copied::clone
    ensures
        same_base(self.base, ret.base),
        Copied::copied(self.scene, ret.scene),
        Copied::copied(self.value, ret.value),
        Copied::copied(self.status, ret.status),
        Copied::copied(self.ba, ret.ba),
        Copied::copied(self.tp_, ret.tp_),
        Copied::copied(self.data, ret.data),
        Copied::copied(self.signal, ret.signal),
        Copied::copied(self.count_of, ret.count_of),
        Copied::copied(self.process_mode, ret.process_mode),
        Copied::copied(self.mode, ret.mode),
        Copied::copied(self.args, ret.args),
        Copied::copied(self.field, ret.field),
        Copied::copied(self.init, ret.init),
        Copied::copied(self.declare, ret.declare),
        Copied::copied(self.x_1, ret.x_1),
        Copied::copied(self.owner, ret.owner),
        Copied::copied(self.map, ret.map),
        Copied::copied(self.wrap, ret.wrap),
        Copied::copied(self.tag_2, ret.tag_2),
        Copied::copied(self.b, ret.b),
//@ end
//@ fn @classes <Deref for Base>::deref
    ensures *ret == self.base,
//@ end
//@ fn @classes <DerefMut for Base>::deref_mut
    ensures *ret == old(self).base, final(self).base == *final(ret),
        final(self).scene == old(self).scene,
        final(self).value == old(self).value,
        final(self).status == old(self).status,
        final(self).ba == old(self).ba,
        final(self).tp_ == old(self).tp_,
        final(self).data == old(self).data,
        final(self).signal == old(self).signal,
        final(self).count_of == old(self).count_of,
        final(self).process_mode == old(self).process_mode,
        final(self).mode == old(self).mode,
        final(self).args == old(self).args,
        final(self).field == old(self).field,
        final(self).init == old(self).init,
        final(self).declare == old(self).declare,
        final(self).x_1 == old(self).x_1,
        final(self).owner == old(self).owner,
        final(self).map == old(self).map,
        final(self).wrap == old(self).wrap,
        final(self).tag_2 == old(self).tag_2,
        final(self).b == old(self).b,
//@ end
//@ fn @classes <NodeAbstract for Base>::base | as=base_of
    ensures *ret == self.base,
//@ end
//@ fn @classes <NodeAbstract for Base>::base_mut | as=base_of_mut
    ensures *ret == old(self).base, final(self).base == *final(ret),
        final(self).scene == old(self).scene,
        final(self).value == old(self).value,
        final(self).status == old(self).status,
        final(self).ba == old(self).ba,
        final(self).tp_ == old(self).tp_,
        final(self).data == old(self).data,
        final(self).signal == old(self).signal,
        final(self).count_of == old(self).count_of,
        final(self).process_mode == old(self).process_mode,
        final(self).mode == old(self).mode,
        final(self).args == old(self).args,
        final(self).field == old(self).field,
        final(self).init == old(self).init,
        final(self).declare == old(self).declare,
        final(self).x_1 == old(self).x_1,
        final(self).owner == old(self).owner,
        final(self).map == old(self).map,
        final(self).wrap == old(self).wrap,
        final(self).tag_2 == old(self).tag_2,
        final(self).b == old(self).b,
//@ end
//@ fn @classes <Registered for Base>::save_from_owned
    ensures
        ret@.dom().subset_of(set!["scene"@, "value"@, "status"@, "ba"@, "tp_"@, "data"@, "signal"@, "count_of"@, "process_mode"@, "mode"@, "args"@, "field"@, "init"@, "declare"@, "x_1"@, "owner"@, "map"@, "wrap"@, "tag_2"@, "b"@]),
        ret@.contains_key("scene"@) ==> copy_of(ret@["scene"@], self.scene),
        ret@.contains_key("value"@) ==> copy_of(ret@["value"@], self.value),
        ret@.contains_key("status"@) && copy_of(ret@["status"@], self.status),
        ret@.contains_key("ba"@) ==> copy_of(ret@["ba"@], self.ba),
        ret@.contains_key("tp_"@) && copy_of(ret@["tp_"@], self.tp_),
        ret@.contains_key("data"@) && copy_of(ret@["data"@], self.data),
        ret@.contains_key("signal"@) && copy_of(ret@["signal"@], self.signal),
        ret@.contains_key("count_of"@) && copy_of(ret@["count_of"@], self.count_of),
        ret@.contains_key("process_mode"@) ==> copy_of(ret@["process_mode"@], self.process_mode),
        ret@.contains_key("mode"@) && copy_of(ret@["mode"@], self.mode),
        ret@.contains_key("args"@) ==> copy_of(ret@["args"@], self.args),
        ret@.contains_key("field"@) ==> copy_of(ret@["field"@], self.field),
        ret@.contains_key("init"@) ==> copy_of(ret@["init"@], self.init),
        ret@.contains_key("declare"@) && copy_of(ret@["declare"@], self.declare),
        ret@.contains_key("x_1"@) ==> copy_of(ret@["x_1"@], self.x_1),
        ret@.contains_key("owner"@) ==> copy_of(ret@["owner"@], self.owner),
        ret@.contains_key("map"@) ==> copy_of(ret@["map"@], self.map),
        ret@.contains_key("wrap"@) ==> copy_of(ret@["wrap"@], self.wrap),
        ret@.contains_key("tag_2"@) ==> copy_of(ret@["tag_2"@], self.tag_2),
        ret@.contains_key("b"@) && copy_of(ret@["b"@], self.b),
    //@ hint entry
        proof { reveal_strlit("scene"); assert("scene"@.len() == 5); reveal_strlit("value"); assert("value"@.len() == 5); reveal_strlit("status"); assert("status"@.len() == 6); reveal_strlit("ba"); assert("ba"@.len() == 2); reveal_strlit("tp_"); assert("tp_"@.len() == 3); reveal_strlit("data"); assert("data"@.len() == 4); reveal_strlit("signal"); assert("signal"@.len() == 6); reveal_strlit("count_of"); assert("count_of"@.len() == 8); reveal_strlit("process_mode"); assert("process_mode"@.len() == 12); reveal_strlit("mode"); assert("mode"@.len() == 4); reveal_strlit("args"); assert("args"@.len() == 4); reveal_strlit("field"); assert("field"@.len() == 5); reveal_strlit("init"); assert("init"@.len() == 4); reveal_strlit("declare"); assert("declare"@.len() == 7); reveal_strlit("x_1"); assert("x_1"@.len() == 3); reveal_strlit("owner"); assert("owner"@.len() == 5); reveal_strlit("map"); assert("map"@.len() == 3); reveal_strlit("wrap"); assert("wrap"@.len() == 4); reveal_strlit("tag_2"); assert("tag_2"@.len() == 5); reveal_strlit("b"); assert("b"@.len() == 1); assert("value"@[0] != "scene"@[0]); assert("signal"@[1] != "status"@[1]); assert("mode"@[0] != "data"@[0]); assert("args"@[0] != "data"@[0]); assert("args"@[0] != "mode"@[0]); assert("field"@[0] != "scene"@[0]); assert("field"@[0] != "value"@[0]); assert("init"@[0] != "data"@[0]); assert("init"@[0] != "mode"@[0]); assert("init"@[0] != "args"@[0]); assert("x_1"@[0] != "tp_"@[0]); assert("owner"@[0] != "scene"@[0]); assert("owner"@[0] != "value"@[0]); assert("owner"@[0] != "field"@[0]); assert("map"@[0] != "tp_"@[0]); assert("map"@[0] != "x_1"@[0]); assert("wrap"@[0] != "data"@[0]); assert("wrap"@[0] != "mode"@[0]); assert("wrap"@[0] != "args"@[0]); assert("wrap"@[0] != "init"@[0]); assert("tag_2"@[0] != "scene"@[0]); assert("tag_2"@[0] != "value"@[0]); assert("tag_2"@[0] != "field"@[0]); assert("tag_2"@[0] != "owner"@[0]); }
//@ end
//@ fn @classes <Registered for Base>::load_from_owned
    ensures
        ret is Ok == (reads::<ExportableField<u32>>(owned_state@, "status"@) && reads::<ExportableField<bool>>(owned_state@, "tp_"@) && reads::<ExportableField<u8>>(owned_state@, "data"@) && reads::<ExportableField<i32>>(owned_state@, "signal"@) && reads::<ExportableField<Vec<u8>>>(owned_state@, "count_of"@) && reads::<ExportableField<u64>>(owned_state@, "mode"@) && reads::<ExportableField<String>>(owned_state@, "declare"@) && reads::<ExportableField<i32>>(owned_state@, "b"@)),
        ret matches Ok(r) ==> r.base.named() == "Base"@ && r.base.fresh() && Voidable::empty(r.scene) && Voidable::empty(r.value) && Some(r.status) == <ExportableField<u32> as Exportable>::dec(owned_state@["status"@]) && Voidable::empty(r.ba) && Some(r.tp_) == <ExportableField<bool> as Exportable>::dec(owned_state@["tp_"@]) && Some(r.data) == <ExportableField<u8> as Exportable>::dec(owned_state@["data"@]) && Some(r.signal) == <ExportableField<i32> as Exportable>::dec(owned_state@["signal"@]) && Some(r.count_of) == <ExportableField<Vec<u8>> as Exportable>::dec(owned_state@["count_of"@]) && Voidable::empty(r.process_mode) && Some(r.mode) == <ExportableField<u64> as Exportable>::dec(owned_state@["mode"@]) && Voidable::empty(r.args) && Voidable::empty(r.field) && Voidable::empty(r.init) && Some(r.declare) == <ExportableField<String> as Exportable>::dec(owned_state@["declare"@]) && Voidable::empty(r.x_1) && Voidable::empty(r.owner) && Voidable::empty(r.map) && Voidable::empty(r.wrap) && Voidable::empty(r.tag_2) && Some(r.b) == <ExportableField<i32> as Exportable>::dec(owned_state@["b"@]),
    //@ hint entry
        proof { reveal_strlit("status"); assert("status"@.len() == 6); reveal_strlit("tp_"); assert("tp_"@.len() == 3); reveal_strlit("data"); assert("data"@.len() == 4); reveal_strlit("signal"); assert("signal"@.len() == 6); reveal_strlit("count_of"); assert("count_of"@.len() == 8); reveal_strlit("mode"); assert("mode"@.len() == 4); reveal_strlit("declare"); assert("declare"@.len() == 7); reveal_strlit("b"); assert("b"@.len() == 1); assert("signal"@[1] != "status"@[1]); assert("mode"@[0] != "data"@[0]); }
//@ end
//@ fn @classes <Node for Base>::process_mode
    ensures ret is Inverse,
//@ end
    /// Through Deref.
    pub fn set_name_unchecked(&mut self, name: &str)
        ensures final(self).base.named() == name@, final(self).base.fresh() == old(self).base.fresh(), final(self).scene == old(self).scene, final(self).value == old(self).value, final(self).status == old(self).status, final(self).ba == old(self).ba, final(self).tp_ == old(self).tp_, final(self).data == old(self).data, final(self).signal == old(self).signal, final(self).count_of == old(self).count_of, final(self).process_mode == old(self).process_mode, final(self).mode == old(self).mode, final(self).args == old(self).args, final(self).field == old(self).field, final(self).init == old(self).init, final(self).declare == old(self).declare, final(self).x_1 == old(self).x_1, final(self).owner == old(self).owner, final(self).map == old(self).map, final(self).wrap == old(self).wrap, final(self).tag_2 == old(self).tag_2, final(self).b == old(self).b,
    { self.deref_mut().set_name_unchecked(name) }
}

// Scene
//@ type @classes Scene
impl Scene {
//@ fn @classes Scene::new
    ensures
        ret.base.named() == "Scene"@, ret.base.fresh(),
        ret.map.0 == map,
//@ end
//@ fn @classes <Clone for Scene>::clone | path=::core::clone::Clone::clone=>Copied::clone
    ensures
        same_base(self.base, ret.base),
        Copied::copied(self.map, ret.map),
//@ end
//@ fn @classes <Deref for Scene>::deref
    ensures *ret == self.base,
//@ end
//@ fn @classes <DerefMut for Scene>::deref_mut
    ensures *ret == old(self).base, final(self).base == *final(ret),
        final(self).map == old(self).map,
//@ end
//@ fn @classes <NodeAbstract for Scene>::base | as=base_of
    ensures *ret == self.base,
//@ end
//@ fn @classes <NodeAbstract for Scene>::base_mut | as=base_of_mut
    ensures *ret == old(self).base, final(self).base == *final(ret),
        final(self).map == old(self).map,
//@ end
//@ fn @classes <Registered for Scene>::save_from_owned
    ensures
        ret@.dom().subset_of(set!["map"@]),
        ret@.contains_key("map"@) && copy_of(ret@["map"@], self.map),
    //@ hint entry
        proof { reveal_strlit("map"); assert("map"@.len() == 3); }
//@ end
//@ fn @classes <Registered for Scene>::load_from_owned
    ensures
        ret is Ok == (reads::<ExportableField<String>>(owned_state@, "map"@)),
        ret matches Ok(r) ==> r.base.named() == "Scene"@ && r.base.fresh() && Some(r.map) == <ExportableField<String> as Exportable>::dec(owned_state@["map"@]),
    //@ hint entry
        proof { reveal_strlit("map"); assert("map"@.len() == 3); }
//@ end
//@ fn @classes <Node for Scene>::process_mode
    ensures ret is Pausable,
//@ end
    /// Through Deref.
    pub fn set_name_unchecked(&mut self, name: &str)
        ensures final(self).base.named() == name@, final(self).base.fresh() == old(self).base.fresh(), final(self).map == old(self).map,
    { self.deref_mut().set_name_unchecked(name) }
}

// Nodes
//@ type @classes Nodes
impl Nodes {
//@ fn @classes Nodes::new
    ensures
        ret.base.named() == "Nodes"@, ret.base.fresh(),
        preset(ret.class.0),
        ret.process_mode == Field::Valid(process_mode),
//@ end
//@ fn @classes <Clone for Nodes>::clone | path=::core::clone::Clone::clone=>Copied::clone
    ensures
        same_base(self.base, ret.base),
        Copied::copied(self.class, ret.class),
        Copied::copied(self.process_mode, ret.process_mode),
//@ end
//@ fn @classes <Deref for Nodes>::deref
    ensures *ret == self.base,
//@ end
//@ fn @classes <DerefMut for Nodes>::deref_mut
    ensures *ret == old(self).base, final(self).base == *final(ret),
        final(self).class == old(self).class,
        final(self).process_mode == old(self).process_mode,
//@ end
//@ fn @classes <NodeAbstract for Nodes>::base | as=base_of
    ensures *ret == self.base,
//@ end
//@ fn @classes <NodeAbstract for Nodes>::base_mut | as=base_of_mut
    ensures *ret == old(self).base, final(self).base == *final(ret),
        final(self).class == old(self).class,
        final(self).process_mode == old(self).process_mode,
//@ end
//@ fn @classes <Registered for Nodes>::save_from_owned
    ensures
        ret@.dom().subset_of(set!["class"@, "process_mode"@]),
        ret@.contains_key("class"@) ==> copy_of(ret@["class"@], self.class),
        ret@.contains_key("process_mode"@) ==> copy_of(ret@["process_mode"@], self.process_mode),
    //@ hint entry
        proof { reveal_strlit("class"); assert("class"@.len() == 5); reveal_strlit("process_mode"); assert("process_mode"@.len() == 12); }
//@ end
//@ fn @classes <Registered for Nodes>::load_from_owned
    ensures
        ret is Ok == (true),
        ret matches Ok(r) ==> r.base.named() == "Nodes"@ && r.base.fresh() && Voidable::empty(r.class) && Voidable::empty(r.process_mode),
//@ end
//@ fn @classes <Node for Nodes>::process_mode
    ensures ret is Pausable,
//@ end
    /// Through Deref.
    pub fn set_name_unchecked(&mut self, name: &str)
        ensures final(self).base.named() == name@, final(self).base.fresh() == old(self).base.fresh(), final(self).class == old(self).class, final(self).process_mode == old(self).process_mode,
    { self.deref_mut().set_name_unchecked(name) }
}

// TreeTop
//@ type @classes TreeTop
impl TreeTop {
//@ fn @classes TreeTop::new
    ensures
        ret.base.named() == "TreeTop"@, ret.base.fresh(),
        idle(ret.x10),
        idle(ret.count_of),
        ret.void.0 == 0u32,
        ret.init == Field::Valid(init),
        ret.this_name_is_longer_than_any_other_name_in_this_file == Field::Valid(this_name_is_longer_than_any_other_name_in_this_file),
        ret.a_ == Field::Valid(a_),
        preset(ret.tag_2.0),
        preset(ret.on_x.0),
        preset(ret.ty.0),
        preset(ret._init.0),
        ret.camelCase == UniqueField::Valid(-1i64),
        preset(ret.r_type.0),
        preset(ret.mode.0),
        ret.bases.0 == 0u8,
        ret.args == UniqueField::Valid(1i64),
        ret.new == UniqueField::Valid(true),
        preset(ret.b.0),
        ret.data == UniqueField::Valid(3513673736841092178i64),
        preset(ret.a.0),
        ret.rid == Field::Valid(9u64),
//@ end
//@ fn @classes <Clone for TreeTop>::clone | path=::core::clone::Clone::clone=>Copied::clone
    ensures
        same_base(self.base, ret.base),
        Copied::copied(self.x10, ret.x10),
        Copied::copied(self.count_of, ret.count_of),
        Copied::copied(self.void, ret.void),
        Copied::copied(self.init, ret.init),
        Copied::copied(self.this_name_is_longer_than_any_other_name_in_this_file, ret.this_name_is_longer_than_any_other_name_in_this_file),
        Copied::copied(self.a_, ret.a_),
        Copied::copied(self.tag_2, ret.tag_2),
        Copied::copied(self.on_x, ret.on_x),
        Copied::copied(self.ty, ret.ty),
        Copied::copied(self._init, ret._init),
        Copied::copied(self.camelCase, ret.camelCase),
        Copied::copied(self.r_type, ret.r_type),
        Copied::copied(self.mode, ret.mode),
        Copied::copied(self.bases, ret.bases),
        Copied::copied(self.args, ret.args),
        Copied::copied(self.new, ret.new),
        Copied::copied(self.b, ret.b),
        Copied::copied(self.data, ret.data),
        Copied::copied(self.a, ret.a),
        Copied::copied(self.rid, ret.rid),
//@ end
//@ fn @classes <Deref for TreeTop>::deref
    ensures *ret == self.base,
//@ end
//@ fn @classes <DerefMut for TreeTop>::deref_mut
    ensures *ret == old(self).base, final(self).base == *final(ret),
        final(self).x10 == old(self).x10,
        final(self).count_of == old(self).count_of,
        final(self).void == old(self).void,
        final(self).init == old(self).init,
        final(self).this_name_is_longer_than_any_other_name_in_this_file == old(self).this_name_is_longer_than_any_other_name_in_this_file,
        final(self).a_ == old(self).a_,
        final(self).tag_2 == old(self).tag_2,
        final(self).on_x == old(self).on_x,
        final(self).ty == old(self).ty,
        final(self)._init == old(self)._init,
        final(self).camelCase == old(self).camelCase,
        final(self).r_type == old(self).r_type,
        final(self).mode == old(self).mode,
        final(self).bases == old(self).bases,
        final(self).args == old(self).args,
        final(self).new == old(self).new,
        final(self).b == old(self).b,
        final(self).data == old(self).data,
        final(self).a == old(self).a,
        final(self).rid == old(self).rid,
//@ end
//@ fn @classes <NodeAbstract for TreeTop>::base | as=base_of
    ensures *ret == self.base,
//@ end
//@ fn @classes <NodeAbstract for TreeTop>::base_mut | as=base_of_mut
    ensures *ret == old(self).base, final(self).base == *final(ret),
        final(self).x10 == old(self).x10,
        final(self).count_of == old(self).count_of,
        final(self).void == old(self).void,
        final(self).init == old(self).init,
        final(self).this_name_is_longer_than_any_other_name_in_this_file == old(self).this_name_is_longer_than_any_other_name_in_this_file,
        final(self).a_ == old(self).a_,
        final(self).tag_2 == old(self).tag_2,
        final(self).on_x == old(self).on_x,
        final(self).ty == old(self).ty,
        final(self)._init == old(self)._init,
        final(self).camelCase == old(self).camelCase,
        final(self).r_type == old(self).r_type,
        final(self).mode == old(self).mode,
        final(self).bases == old(self).bases,
        final(self).args == old(self).args,
        final(self).new == old(self).new,
        final(self).b == old(self).b,
        final(self).data == old(self).data,
        final(self).a == old(self).a,
        final(self).rid == old(self).rid,
//@ end
//@ fn @classes <Registered for TreeTop>::save_from_owned
    ensures
        ret@.dom().subset_of(set!["x10"@, "count_of"@, "void"@, "init"@, "this_name_is_longer_than_any_other_name_in_this_file"@, "a_"@, "tag_2"@, "on_x"@, "ty"@, "_init"@, "camelCase"@, "r_type"@, "mode"@, "bases"@, "args"@, "new"@, "b"@, "data"@, "a"@, "rid"@]),
        ret@.contains_key("x10"@) ==> copy_of(ret@["x10"@], self.x10),
        ret@.contains_key("count_of"@) ==> copy_of(ret@["count_of"@], self.count_of),
        ret@.contains_key("void"@) && copy_of(ret@["void"@], self.void),
        ret@.contains_key("init"@) ==> copy_of(ret@["init"@], self.init),
        ret@.contains_key("this_name_is_longer_than_any_other_name_in_this_file"@) ==> copy_of(ret@["this_name_is_longer_than_any_other_name_in_this_file"@], self.this_name_is_longer_than_any_other_name_in_this_file),
        ret@.contains_key("a_"@) ==> copy_of(ret@["a_"@], self.a_),
        ret@.contains_key("tag_2"@) && copy_of(ret@["tag_2"@], self.tag_2),
        ret@.contains_key("on_x"@) ==> copy_of(ret@["on_x"@], self.on_x),
        ret@.contains_key("ty"@) ==> copy_of(ret@["ty"@], self.ty),
        ret@.contains_key("_init"@) && copy_of(ret@["_init"@], self._init),
        ret@.contains_key("camelCase"@) ==> copy_of(ret@["camelCase"@], self.camelCase),
        ret@.contains_key("r_type"@) && copy_of(ret@["r_type"@], self.r_type),
        ret@.contains_key("mode"@) ==> copy_of(ret@["mode"@], self.mode),
        ret@.contains_key("bases"@) && copy_of(ret@["bases"@], self.bases),
        ret@.contains_key("args"@) ==> copy_of(ret@["args"@], self.args),
        ret@.contains_key("new"@) ==> copy_of(ret@["new"@], self.new),
        ret@.contains_key("b"@) ==> copy_of(ret@["b"@], self.b),
        ret@.contains_key("data"@) ==> copy_of(ret@["data"@], self.data),
        ret@.contains_key("a"@) && copy_of(ret@["a"@], self.a),
        ret@.contains_key("rid"@) ==> copy_of(ret@["rid"@], self.rid),
    //@ hint entry
        proof { reveal_strlit("x10"); assert("x10"@.len() == 3); reveal_strlit("count_of"); assert("count_of"@.len() == 8); reveal_strlit("void"); assert("void"@.len() == 4); reveal_strlit("init"); assert("init"@.len() == 4); reveal_strlit("this_name_is_longer_than_any_other_name_in_this_file"); assert("this_name_is_longer_than_any_other_name_in_this_file"@.len() == 52); reveal_strlit("a_"); assert("a_"@.len() == 2); reveal_strlit("tag_2"); assert("tag_2"@.len() == 5); reveal_strlit("on_x"); assert("on_x"@.len() == 4); reveal_strlit("ty"); assert("ty"@.len() == 2); reveal_strlit("_init"); assert("_init"@.len() == 5); reveal_strlit("camelCase"); assert("camelCase"@.len() == 9); reveal_strlit("r_type"); assert("r_type"@.len() == 6); reveal_strlit("mode"); assert("mode"@.len() == 4); reveal_strlit("bases"); assert("bases"@.len() == 5); reveal_strlit("args"); assert("args"@.len() == 4); reveal_strlit("new"); assert("new"@.len() == 3); reveal_strlit("b"); assert("b"@.len() == 1); reveal_strlit("data"); assert("data"@.len() == 4); reveal_strlit("a"); assert("a"@.len() == 1); reveal_strlit("rid"); assert("rid"@.len() == 3); assert("init"@[0] != "void"@[0]); assert("on_x"@[0] != "void"@[0]); assert("on_x"@[0] != "init"@[0]); assert("ty"@[0] != "a_"@[0]); assert("_init"@[0] != "tag_2"@[0]); assert("mode"@[0] != "void"@[0]); assert("mode"@[0] != "init"@[0]); assert("mode"@[0] != "on_x"@[0]); assert("bases"@[0] != "tag_2"@[0]); assert("bases"@[0] != "_init"@[0]); assert("args"@[0] != "void"@[0]); assert("args"@[0] != "init"@[0]); assert("args"@[0] != "on_x"@[0]); assert("args"@[0] != "mode"@[0]); assert("new"@[0] != "x10"@[0]); assert("data"@[0] != "void"@[0]); assert("data"@[0] != "init"@[0]); assert("data"@[0] != "on_x"@[0]); assert("data"@[0] != "mode"@[0]); assert("data"@[0] != "args"@[0]); assert("a"@[0] != "b"@[0]); assert("rid"@[0] != "x10"@[0]); assert("rid"@[0] != "new"@[0]); }
//@ end
//@ fn @classes <Registered for TreeTop>::load_from_owned
    ensures
        ret is Ok == (reads::<ExportableField<u32>>(owned_state@, "void"@) && reads::<ExportableField<String>>(owned_state@, "tag_2"@) && reads::<ExportableField<Option<i8>>>(owned_state@, "_init"@) && reads::<ExportableField<u8>>(owned_state@, "r_type"@) && reads::<ExportableField<u8>>(owned_state@, "bases"@) && reads::<ExportableField<u16>>(owned_state@, "a"@)),
        ret matches Ok(r) ==> r.base.named() == "TreeTop"@ && r.base.fresh() && Voidable::empty(r.x10) && Voidable::empty(r.count_of) && Some(r.void) == <ExportableField<u32> as Exportable>::dec(owned_state@["void"@]) && Voidable::empty(r.init) && Voidable::empty(r.this_name_is_longer_than_any_other_name_in_this_file) && Voidable::empty(r.a_) && Some(r.tag_2) == <ExportableField<String> as Exportable>::dec(owned_state@["tag_2"@]) && Voidable::empty(r.on_x) && Voidable::empty(r.ty) && Some(r._init) == <ExportableField<Option<i8>> as Exportable>::dec(owned_state@["_init"@]) && Voidable::empty(r.camelCase) && Some(r.r_type) == <ExportableField<u8> as Exportable>::dec(owned_state@["r_type"@]) && Voidable::empty(r.mode) && Some(r.bases) == <ExportableField<u8> as Exportable>::dec(owned_state@["bases"@]) && Voidable::empty(r.args) && Voidable::empty(r.new) && Voidable::empty(r.b) && Voidable::empty(r.data) && Some(r.a) == <ExportableField<u16> as Exportable>::dec(owned_state@["a"@]) && Voidable::empty(r.rid),
    //@ hint entry
        proof { reveal_strlit("void"); assert("void"@.len() == 4); reveal_strlit("tag_2"); assert("tag_2"@.len() == 5); reveal_strlit("_init"); assert("_init"@.len() == 5); reveal_strlit("r_type"); assert("r_type"@.len() == 6); reveal_strlit("bases"); assert("bases"@.len() == 5); reveal_strlit("a"); assert("a"@.len() == 1); assert("_init"@[0] != "tag_2"@[0]); assert("bases"@[0] != "tag_2"@[0]); assert("bases"@[0] != "_init"@[0]); }
//@ end
//@ fn @classes <Node for TreeTop>::process_mode
    ensures ret is Always,
//@ end
    /// Through Deref.
    pub fn set_name_unchecked(&mut self, name: &str)
        ensures final(self).base.named() == name@, final(self).base.fresh() == old(self).base.fresh(), final(self).x10 == old(self).x10, final(self).count_of == old(self).count_of, final(self).void == old(self).void, final(self).init == old(self).init, final(self).this_name_is_longer_than_any_other_name_in_this_file == old(self).this_name_is_longer_than_any_other_name_in_this_file, final(self).a_ == old(self).a_, final(self).tag_2 == old(self).tag_2, final(self).on_x == old(self).on_x, final(self).ty == old(self).ty, final(self)._init == old(self)._init, final(self).camelCase == old(self).camelCase, final(self).r_type == old(self).r_type, final(self).mode == old(self).mode, final(self).bases == old(self).bases, final(self).args == old(self).args, final(self).new == old(self).new, final(self).b == old(self).b, final(self).data == old(self).data, final(self).a == old(self).a, final(self).rid == old(self).rid,
    { self.deref_mut().set_name_unchecked(name) }
}

// Signals
//@ type @classes Signals
impl Signals {
//@ fn @classes Signals::new
    ensures
        ret.base.named() == "Signals"@, ret.base.fresh(),
        ret.wrap == Field::Valid(wrap),
        preset(ret.field.0),
        ret.name == Field::Valid(name),
        preset(ret.tp_.0),
        preset(ret.ab.0),
        preset(ret.unique.0),
        ret.kind == Field::Valid(-1i32),
        ret.map == Field::Valid(map),
        ret.init.0 == init,
        ret.status == UniqueField::Valid(status),
        preset(ret.void.0),
        ret.declare == UniqueField::Valid(declare),
        ret.process_mode.0 == false,
        ret.ba == UniqueField::Valid(0u64),
        preset(ret.rid.0),
        preset(ret.parent.0),
        preset(ret.a.0),
        ret.index == Field::Valid(index),
        preset(ret.this.0),
        preset(ret.state.0),
//@ end
//@ fn @classes <Clone for Signals>::clone | path=::core::clone::Clone::clone=>Copied::clone
    ensures
        same_base(self.base, ret.base),
        Copied::copied(self.wrap, ret.wrap),
        Copied::copied(self.field, ret.field),
        Copied::copied(self.name, ret.name),
        Copied::copied(self.tp_, ret.tp_),
        Copied::copied(self.ab, ret.ab),
        Copied::copied(self.unique, ret.unique),
        Copied::copied(self.kind, ret.kind),
        Copied::copied(self.map, ret.map),
        Copied::copied(self.init, ret.init),
        Copied::copied(self.status, ret.status),
        Copied::copied(self.void, ret.void),
        Copied::copied(self.declare, ret.declare),
        Copied::copied(self.process_mode, ret.process_mode),
        Copied::copied(self.ba, ret.ba),
        Copied::copied(self.rid, ret.rid),
        Copied::copied(self.parent, ret.parent),
        Copied::copied(self.a, ret.a),
        Copied::copied(self.index, ret.index),
        Copied::copied(self.this, ret.this),
        Copied::copied(self.state, ret.state),
//@ end
//@ fn @classes <Deref for Signals>::deref
    ensures *ret == self.base,
//@ end
//@ fn @classes <DerefMut for Signals>::deref_mut
    ensures *ret == old(self).base, final(self).base == *final(ret),
        final(self).wrap == old(self).wrap,
        final(self).field == old(self).field,
        final(self).name == old(self).name,
        final(self).tp_ == old(self).tp_,
        final(self).ab == old(self).ab,
        final(self).unique == old(self).unique,
        final(self).kind == old(self).kind,
        final(self).map == old(self).map,
        final(self).init == old(self).init,
        final(self).status == old(self).status,
        final(self).void == old(self).void,
        final(self).declare == old(self).declare,
        final(self).process_mode == old(self).process_mode,
        final(self).ba == old(self).ba,
        final(self).rid == old(self).rid,
        final(self).parent == old(self).parent,
        final(self).a == old(self).a,
        final(self).index == old(self).index,
        final(self).this == old(self).this,
        final(self).state == old(self).state,
//@ end
//@ fn @classes <NodeAbstract for Signals>::base | as=base_of
    ensures *ret == self.base,
//@ end
//@ fn @classes <NodeAbstract for Signals>::base_mut | as=base_of_mut
    ensures *ret == old(self).base, final(self).base == *final(ret),
        final(self).wrap == old(self).wrap,
        final(self).field == old(self).field,
        final(self).name == old(self).name,
        final(self).tp_ == old(self).tp_,
        final(self).ab == old(self).ab,
        final(self).unique == old(self).unique,
        final(self).kind == old(self).kind,
        final(self).map == old(self).map,
        final(self).init == old(self).init,
        final(self).status == old(self).status,
        final(self).void == old(self).void,
        final(self).declare == old(self).declare,
        final(self).process_mode == old(self).process_mode,
        final(self).ba == old(self).ba,
        final(self).rid == old(self).rid,
        final(self).parent == old(self).parent,
        final(self).a == old(self).a,
        final(self).index == old(self).index,
        final(self).this == old(self).this,
        final(self).state == old(self).state,
//@ end
//@ fn @classes <Registered for Signals>::save_from_owned
    ensures
        ret@.dom().subset_of(set!["wrap"@, "field"@, "name"@, "tp_"@, "ab"@, "unique"@, "kind"@, "map"@, "init"@, "status"@, "void"@, "declare"@, "process_mode"@, "ba"@, "rid"@, "parent"@, "a"@, "index"@, "this"@, "state"@]),
        ret@.contains_key("wrap"@) ==> copy_of(ret@["wrap"@], self.wrap),
        ret@.contains_key("field"@) && copy_of(ret@["field"@], self.field),
        ret@.contains_key("name"@) ==> copy_of(ret@["name"@], self.name),
        ret@.contains_key("tp_"@) ==> copy_of(ret@["tp_"@], self.tp_),
        ret@.contains_key("ab"@) ==> copy_of(ret@["ab"@], self.ab),
        ret@.contains_key("unique"@) ==> copy_of(ret@["unique"@], self.unique),
        ret@.contains_key("kind"@) ==> copy_of(ret@["kind"@], self.kind),
        ret@.contains_key("map"@) ==> copy_of(ret@["map"@], self.map),
        ret@.contains_key("init"@) && copy_of(ret@["init"@], self.init),
        ret@.contains_key("status"@) ==> copy_of(ret@["status"@], self.status),
        ret@.contains_key("void"@) ==> copy_of(ret@["void"@], self.void),
        ret@.contains_key("declare"@) ==> copy_of(ret@["declare"@], self.declare),
        ret@.contains_key("process_mode"@) && copy_of(ret@["process_mode"@], self.process_mode),
        ret@.contains_key("ba"@) ==> copy_of(ret@["ba"@], self.ba),
        ret@.contains_key("rid"@) && copy_of(ret@["rid"@], self.rid),
        ret@.contains_key("parent"@) ==> copy_of(ret@["parent"@], self.parent),
        ret@.contains_key("a"@) && copy_of(ret@["a"@], self.a),
        ret@.contains_key("index"@) ==> copy_of(ret@["index"@], self.index),
        ret@.contains_key("this"@) && copy_of(ret@["this"@], self.this),
        ret@.contains_key("state"@) && copy_of(ret@["state"@], self.state),
    //@ hint entry
        proof { reveal_strlit("wrap"); assert("wrap"@.len() == 4); reveal_strlit("field"); assert("field"@.len() == 5); reveal_strlit("name"); assert("name"@.len() == 4); reveal_strlit("tp_"); assert("tp_"@.len() == 3); reveal_strlit("ab"); assert("ab"@.len() == 2); reveal_strlit("unique"); assert("unique"@.len() == 6); reveal_strlit("kind"); assert("kind"@.len() == 4); reveal_strlit("map"); assert("map"@.len() == 3); reveal_strlit("init"); assert("init"@.len() == 4); reveal_strlit("status"); assert("status"@.len() == 6); reveal_strlit("void"); assert("void"@.len() == 4); reveal_strlit("declare"); assert("declare"@.len() == 7); reveal_strlit("process_mode"); assert("process_mode"@.len() == 12); reveal_strlit("ba"); assert("ba"@.len() == 2); reveal_strlit("rid"); assert("rid"@.len() == 3); reveal_strlit("parent"); assert("parent"@.len() == 6); reveal_strlit("a"); assert("a"@.len() == 1); reveal_strlit("index"); assert("index"@.len() == 5); reveal_strlit("this"); assert("this"@.len() == 4); reveal_strlit("state"); assert("state"@.len() == 5); assert("name"@[0] != "wrap"@[0]); assert("kind"@[0] != "wrap"@[0]); assert("kind"@[0] != "name"@[0]); assert("map"@[0] != "tp_"@[0]); assert("init"@[0] != "wrap"@[0]); assert("init"@[0] != "name"@[0]); assert("init"@[0] != "kind"@[0]); assert("status"@[0] != "unique"@[0]); assert("void"@[0] != "wrap"@[0]); assert("void"@[0] != "name"@[0]); assert("void"@[0] != "kind"@[0]); assert("void"@[0] != "init"@[0]); assert("ba"@[0] != "ab"@[0]); assert("rid"@[0] != "tp_"@[0]); assert("rid"@[0] != "map"@[0]); assert("parent"@[0] != "unique"@[0]); assert("parent"@[0] != "status"@[0]); assert("index"@[0] != "field"@[0]); assert("this"@[0] != "wrap"@[0]); assert("this"@[0] != "name"@[0]); assert("this"@[0] != "kind"@[0]); assert("this"@[0] != "init"@[0]); assert("this"@[0] != "void"@[0]); assert("state"@[0] != "field"@[0]); assert("state"@[0] != "index"@[0]); }
//@ end
//@ fn @classes <Registered for Signals>::load_from_owned
    ensures
        ret is Ok == (reads::<ExportableField<Vec<u8>>>(owned_state@, "field"@) && reads::<ExportableField<u8>>(owned_state@, "init"@) && reads::<ExportableField<bool>>(owned_state@, "process_mode"@) && reads::<ExportableField<u64>>(owned_state@, "rid"@) && reads::<ExportableField<u64>>(owned_state@, "a"@) && reads::<ExportableField<Vec<u8>>>(owned_state@, "this"@) && reads::<ExportableField<bool>>(owned_state@, "state"@)),
        ret matches Ok(r) ==> r.base.named() == "Signals"@ && r.base.fresh() && Voidable::empty(r.wrap) && Some(r.field) == <ExportableField<Vec<u8>> as Exportable>::dec(owned_state@["field"@]) && Voidable::empty(r.name) && Voidable::empty(r.tp_) && Voidable::empty(r.ab) && Voidable::empty(r.unique) && Voidable::empty(r.kind) && Voidable::empty(r.map) && Some(r.init) == <ExportableField<u8> as Exportable>::dec(owned_state@["init"@]) && Voidable::empty(r.status) && Voidable::empty(r.void) && Voidable::empty(r.declare) && Some(r.process_mode) == <ExportableField<bool> as Exportable>::dec(owned_state@["process_mode"@]) && Voidable::empty(r.ba) && Some(r.rid) == <ExportableField<u64> as Exportable>::dec(owned_state@["rid"@]) && Voidable::empty(r.parent) && Some(r.a) == <ExportableField<u64> as Exportable>::dec(owned_state@["a"@]) && Voidable::empty(r.index) && Some(r.this) == <ExportableField<Vec<u8>> as Exportable>::dec(owned_state@["this"@]) && Some(r.state) == <ExportableField<bool> as Exportable>::dec(owned_state@["state"@]),
    //@ hint entry
        proof { reveal_strlit("field"); assert("field"@.len() == 5); reveal_strlit("init"); assert("init"@.len() == 4); reveal_strlit("process_mode"); assert("process_mode"@.len() == 12); reveal_strlit("rid"); assert("rid"@.len() == 3); reveal_strlit("a"); assert("a"@.len() == 1); reveal_strlit("this"); assert("this"@.len() == 4); reveal_strlit("state"); assert("state"@.len() == 5); assert("this"@[0] != "init"@[0]); assert("state"@[0] != "field"@[0]); }
//@ end
//@ fn @classes <Node for Signals>::process_mode
    ensures ret is Pausable,
//@ end
    /// Through Deref.
    pub fn set_name_unchecked(&mut self, name: &str)
        ensures final(self).base.named() == name@, final(self).base.fresh() == old(self).base.fresh(), final(self).wrap == old(self).wrap, final(self).field == old(self).field, final(self).name == old(self).name, final(self).tp_ == old(self).tp_, final(self).ab == old(self).ab, final(self).unique == old(self).unique, final(self).kind == old(self).kind, final(self).map == old(self).map, final(self).init == old(self).init, final(self).status == old(self).status, final(self).void == old(self).void, final(self).declare == old(self).declare, final(self).process_mode == old(self).process_mode, final(self).ba == old(self).ba, final(self).rid == old(self).rid, final(self).parent == old(self).parent, final(self).a == old(self).a, final(self).index == old(self).index, final(self).this == old(self).this, final(self).state == old(self).state,
    { self.deref_mut().set_name_unchecked(name) }
}

// Field1
//@ type @classes Field1
impl Field1 {
//@ fn @classes Field1::new
    ensures
        ret.base.named() == "Field1"@, ret.base.fresh(),
        idle(ret.scene),
        idle(ret.owned_state),
        ret.declare == UniqueField::Valid(true),
        ret.rid == Field::Valid(rid),
        ret.kind == Field::Valid(9i8),
        ret.ab == Field::Valid(ab),
        ret.name == Field::Valid(name),
        ret.on_name == UniqueField::Valid(on_name),
        preset(ret.a.0),
        ret.x_1 == Field::Valid(x_1),
        preset(ret.camelCase.0),
        ret.value == Field::Valid(value),
        preset(ret.take.0),
        ret.mode == Field::Valid(0u64),
        preset(ret._init.0),
        preset(ret.base_.0),
        ret.export == Field::Valid(9223372036854775807u64),
        ret.data == UniqueField::Valid(data),
        ret.args == Field::Valid(false),
        ret.is_ghost == Field::Valid(is_ghost),
        preset(ret.map.0),
        ret.unique == Field::Valid(unique),
        ret.hk == Field::Valid(hk),
        ret.status.0 == 0u32,
//@ end
//@ fn @classes <Clone for Field1>::clone | path=::core::clone::Clone::clone=>Copied::clone
    ensures
        same_base(self.base, ret.base),
        Copied::copied(self.scene, ret.scene),
        Copied::copied(self.owned_state, ret.owned_state),
        Copied::copied(self.declare, ret.declare),
        Copied::copied(self.rid, ret.rid),
        Copied::copied(self.kind, ret.kind),
        Copied::copied(self.ab, ret.ab),
        Copied::copied(self.name, ret.name),
        Copied::copied(self.on_name, ret.on_name),
        Copied::copied(self.a, ret.a),
        Copied::copied(self.x_1, ret.x_1),
        Copied::copied(self.camelCase, ret.camelCase),
        Copied::copied(self.value, ret.value),
        Copied::copied(self.take, ret.take),
        Copied::copied(self.mode, ret.mode),
        Copied::copied(self._init, ret._init),
        Copied::copied(self.base_, ret.base_),
        Copied::copied(self.export, ret.export),
        Copied::copied(self.data, ret.data),
        Copied::copied(self.args, ret.args),
        Copied::copied(self.is_ghost, ret.is_ghost),
        Copied::copied(self.map, ret.map),
        Copied::copied(self.unique, ret.unique),
        Copied::copied(self.hk, ret.hk),
        Copied::copied(self.status, ret.status),
//@ end
//@ fn @classes <Deref for Field1>::deref
    ensures *ret == self.base,
//@ end
//@ fn @classes <DerefMut for Field1>::deref_mut
    ensures *ret == old(self).base, final(self).base == *final(ret),
        final(self).scene == old(self).scene,
        final(self).owned_state == old(self).owned_state,
        final(self).declare == old(self).declare,
        final(self).rid == old(self).rid,
        final(self).kind == old(self).kind,
        final(self).ab == old(self).ab,
        final(self).name == old(self).name,
        final(self).on_name == old(self).on_name,
        final(self).a == old(self).a,
        final(self).x_1 == old(self).x_1,
        final(self).camelCase == old(self).camelCase,
        final(self).value == old(self).value,
        final(self).take == old(self).take,
        final(self).mode == old(self).mode,
        final(self)._init == old(self)._init,
        final(self).base_ == old(self).base_,
        final(self).export == old(self).export,
        final(self).data == old(self).data,
        final(self).args == old(self).args,
        final(self).is_ghost == old(self).is_ghost,
        final(self).map == old(self).map,
        final(self).unique == old(self).unique,
        final(self).hk == old(self).hk,
        final(self).status == old(self).status,
//@ end
//@ fn @classes <NodeAbstract for Field1>::base | as=base_of
    ensures *ret == self.base,
//@ end
//@ fn @classes <NodeAbstract for Field1>::base_mut | as=base_of_mut
    ensures *ret == old(self).base, final(self).base == *final(ret),
        final(self).scene == old(self).scene,
        final(self).owned_state == old(self).owned_state,
        final(self).declare == old(self).declare,
        final(self).rid == old(self).rid,
        final(self).kind == old(self).kind,
        final(self).ab == old(self).ab,
        final(self).name == old(self).name,
        final(self).on_name == old(self).on_name,
        final(self).a == old(self).a,
        final(self).x_1 == old(self).x_1,
        final(self).camelCase == old(self).camelCase,
        final(self).value == old(self).value,
        final(self).take == old(self).take,
        final(self).mode == old(self).mode,
        final(self)._init == old(self)._init,
        final(self).base_ == old(self).base_,
        final(self).export == old(self).export,
        final(self).data == old(self).data,
        final(self).args == old(self).args,
        final(self).is_ghost == old(self).is_ghost,
        final(self).map == old(self).map,
        final(self).unique == old(self).unique,
        final(self).hk == old(self).hk,
        final(self).status == old(self).status,
//@ end
//@ fn @classes <Registered for Field1>::save_from_owned
    ensures
        ret@.dom().subset_of(set!["scene"@, "owned_state"@, "declare"@, "rid"@, "kind"@, "ab"@, "name"@, "on_name"@, "a"@, "x_1"@, "camelCase"@, "value"@, "take"@, "mode"@, "_init"@, "base_"@, "export"@, "data"@, "args"@, "is_ghost"@, "map"@, "unique"@, "hk"@, "status"@]),
        ret@.contains_key("scene"@) ==> copy_of(ret@["scene"@], self.scene),
        ret@.contains_key("owned_state"@) ==> copy_of(ret@["owned_state"@], self.owned_state),
        ret@.contains_key("declare"@) ==> copy_of(ret@["declare"@], self.declare),
        ret@.contains_key("rid"@) ==> copy_of(ret@["rid"@], self.rid),
        ret@.contains_key("kind"@) ==> copy_of(ret@["kind"@], self.kind),
        ret@.contains_key("ab"@) ==> copy_of(ret@["ab"@], self.ab),
        ret@.contains_key("name"@) ==> copy_of(ret@["name"@], self.name),
        ret@.contains_key("on_name"@) ==> copy_of(ret@["on_name"@], self.on_name),
        ret@.contains_key("a"@) ==> copy_of(ret@["a"@], self.a),
        ret@.contains_key("x_1"@) ==> copy_of(ret@["x_1"@], self.x_1),
        ret@.contains_key("camelCase"@) ==> copy_of(ret@["camelCase"@], self.camelCase),
        ret@.contains_key("value"@) ==> copy_of(ret@["value"@], self.value),
        ret@.contains_key("take"@) && copy_of(ret@["take"@], self.take),
        ret@.contains_key("mode"@) ==> copy_of(ret@["mode"@], self.mode),
        ret@.contains_key("_init"@) && copy_of(ret@["_init"@], self._init),
        ret@.contains_key("base_"@) ==> copy_of(ret@["base_"@], self.base_),
        ret@.contains_key("export"@) ==> copy_of(ret@["export"@], self.export),
        ret@.contains_key("data"@) ==> copy_of(ret@["data"@], self.data),
        ret@.contains_key("args"@) ==> copy_of(ret@["args"@], self.args),
        ret@.contains_key("is_ghost"@) ==> copy_of(ret@["is_ghost"@], self.is_ghost),
        ret@.contains_key("map"@) ==> copy_of(ret@["map"@], self.map),
        ret@.contains_key("unique"@) ==> copy_of(ret@["unique"@], self.unique),
        ret@.contains_key("hk"@) ==> copy_of(ret@["hk"@], self.hk),
        ret@.contains_key("status"@) && copy_of(ret@["status"@], self.status),
    //@ hint entry
        proof { reveal_strlit("scene"); assert("scene"@.len() == 5); reveal_strlit("owned_state"); assert("owned_state"@.len() == 11); reveal_strlit("declare"); assert("declare"@.len() == 7); reveal_strlit("rid"); assert("rid"@.len() == 3); reveal_strlit("kind"); assert("kind"@.len() == 4); reveal_strlit("ab"); assert("ab"@.len() == 2); reveal_strlit("name"); assert("name"@.len() == 4); reveal_strlit("on_name"); assert("on_name"@.len() == 7); reveal_strlit("a"); assert("a"@.len() == 1); reveal_strlit("x_1"); assert("x_1"@.len() == 3); reveal_strlit("camelCase"); assert("camelCase"@.len() == 9); reveal_strlit("value"); assert("value"@.len() == 5); reveal_strlit("take"); assert("take"@.len() == 4); reveal_strlit("mode"); assert("mode"@.len() == 4); reveal_strlit("_init"); assert("_init"@.len() == 5); reveal_strlit("base_"); assert("base_"@.len() == 5); reveal_strlit("export"); assert("export"@.len() == 6); reveal_strlit("data"); assert("data"@.len() == 4); reveal_strlit("args"); assert("args"@.len() == 4); reveal_strlit("is_ghost"); assert("is_ghost"@.len() == 8); reveal_strlit("map"); assert("map"@.len() == 3); reveal_strlit("unique"); assert("unique"@.len() == 6); reveal_strlit("hk"); assert("hk"@.len() == 2); reveal_strlit("status"); assert("status"@.len() == 6); assert("name"@[0] != "kind"@[0]); assert("on_name"@[0] != "declare"@[0]); assert("x_1"@[0] != "rid"@[0]); assert("value"@[0] != "scene"@[0]); assert("take"@[0] != "kind"@[0]); assert("take"@[0] != "name"@[0]); assert("mode"@[0] != "kind"@[0]); assert("mode"@[0] != "name"@[0]); assert("mode"@[0] != "take"@[0]); assert("_init"@[0] != "scene"@[0]); assert("_init"@[0] != "value"@[0]); assert("base_"@[0] != "scene"@[0]); assert("base_"@[0] != "value"@[0]); assert("base_"@[0] != "_init"@[0]); assert("data"@[0] != "kind"@[0]); assert("data"@[0] != "name"@[0]); assert("data"@[0] != "take"@[0]); assert("data"@[0] != "mode"@[0]); assert("args"@[0] != "kind"@[0]); assert("args"@[0] != "name"@[0]); assert("args"@[0] != "take"@[0]); assert("args"@[0] != "mode"@[0]); assert("args"@[0] != "data"@[0]); assert("map"@[0] != "rid"@[0]); assert("map"@[0] != "x_1"@[0]); assert("unique"@[0] != "export"@[0]); assert("hk"@[0] != "ab"@[0]); assert("status"@[0] != "export"@[0]); assert("status"@[0] != "unique"@[0]); }
//@ end
//@ fn @classes <Registered for Field1>::load_from_owned
    ensures
        ret is Ok == (reads::<ExportableField<bool>>(owned_state@, "take"@) && reads::<ExportableField<Option<i8>>>(owned_state@, "_init"@) && reads::<ExportableField<u32>>(owned_state@, "status"@)),
        ret matches Ok(r) ==> r.base.named() == "Field1"@ && r.base.fresh() && Voidable::empty(r.scene) && Voidable::empty(r.owned_state) && Voidable::empty(r.declare) && Voidable::empty(r.rid) && Voidable::empty(r.kind) && Voidable::empty(r.ab) && Voidable::empty(r.name) && Voidable::empty(r.on_name) && Voidable::empty(r.a) && Voidable::empty(r.x_1) && Voidable::empty(r.camelCase) && Voidable::empty(r.value) && Some(r.take) == <ExportableField<bool> as Exportable>::dec(owned_state@["take"@]) && Voidable::empty(r.mode) && Some(r._init) == <ExportableField<Option<i8>> as Exportable>::dec(owned_state@["_init"@]) && Voidable::empty(r.base_) && Voidable::empty(r.export) && Voidable::empty(r.data) && Voidable::empty(r.args) && Voidable::empty(r.is_ghost) && Voidable::empty(r.map) && Voidable::empty(r.unique) && Voidable::empty(r.hk) && Some(r.status) == <ExportableField<u32> as Exportable>::dec(owned_state@["status"@]),
    //@ hint entry
        proof { reveal_strlit("take"); assert("take"@.len() == 4); reveal_strlit("_init"); assert("_init"@.len() == 5); reveal_strlit("status"); assert("status"@.len() == 6); }
//@ end
//@ fn @classes <Node for Field1>::process_mode
    ensures ret is Always,
//@ end
    /// Through Deref.
    pub fn set_name_unchecked(&mut self, name: &str)
        ensures final(self).base.named() == name@, final(self).base.fresh() == old(self).base.fresh(), final(self).scene == old(self).scene, final(self).owned_state == old(self).owned_state, final(self).declare == old(self).declare, final(self).rid == old(self).rid, final(self).kind == old(self).kind, final(self).ab == old(self).ab, final(self).name == old(self).name, final(self).on_name == old(self).on_name, final(self).a == old(self).a, final(self).x_1 == old(self).x_1, final(self).camelCase == old(self).camelCase, final(self).value == old(self).value, final(self).take == old(self).take, final(self).mode == old(self).mode, final(self)._init == old(self)._init, final(self).base_ == old(self).base_, final(self).export == old(self).export, final(self).data == old(self).data, final(self).args == old(self).args, final(self).is_ghost == old(self).is_ghost, final(self).map == old(self).map, final(self).unique == old(self).unique, final(self).hk == old(self).hk, final(self).status == old(self).status,
    { self.deref_mut().set_name_unchecked(name) }
}

// Kindly
//@ type @classes Kindly
impl Kindly {
//@ fn @classes Kindly::new
    ensures
        ret.base.named() == "Kindly"@, ret.base.fresh(),
        preset(ret.field.0),
        ret._low == Field::Valid(0u16),
//@ end
//@ fn @classes <Clone for Kindly>::clone | path=::core::clone::Clone::clone=>Copied::clone
    ensures
        same_base(self.base, ret.base),
        Copied::copied(self.field, ret.field),
        Copied::copied(self._low, ret._low),
//@ end
//@ fn @classes <Deref for Kindly>::deref
    ensures *ret == self.base,
//@ end
//@ fn @classes <DerefMut for Kindly>::deref_mut
    ensures *ret == old(self).base, final(self).base == *final(ret),
        final(self).field == old(self).field,
        final(self)._low == old(self)._low,
//@ end
//@ fn @classes <NodeAbstract for Kindly>::base | as=base_of
    ensures *ret == self.base,
//@ end
//@ fn @classes <NodeAbstract for Kindly>::base_mut | as=base_of_mut
    ensures *ret == old(self).base, final(self).base == *final(ret),
        final(self).field == old(self).field,
        final(self)._low == old(self)._low,
//@ end
//@ fn @classes <Registered for Kindly>::save_from_owned
    ensures
        ret@.dom().subset_of(set!["field"@, "_low"@]),
        ret@.contains_key("field"@) && copy_of(ret@["field"@], self.field),
        ret@.contains_key("_low"@) ==> copy_of(ret@["_low"@], self._low),
    //@ hint entry
        proof { reveal_strlit("field"); assert("field"@.len() == 5); reveal_strlit("_low"); assert("_low"@.len() == 4); }
//@ end
//@ fn @classes <Registered for Kindly>::load_from_owned
    ensures
        ret is Ok == (reads::<ExportableField<Vec<u8>>>(owned_state@, "field"@)),
        ret matches Ok(r) ==> r.base.named() == "Kindly"@ && r.base.fresh() && Some(r.field) == <ExportableField<Vec<u8>> as Exportable>::dec(owned_state@["field"@]) && Voidable::empty(r._low),
    //@ hint entry
        proof { reveal_strlit("field"); assert("field"@.len() == 5); }
//@ end
//@ fn @classes <Node for Kindly>::process_mode
    ensures ret is Pausable,
//@ end
    /// Through Deref.
    pub fn set_name_unchecked(&mut self, name: &str)
        ensures final(self).base.named() == name@, final(self).base.fresh() == old(self).base.fresh(), final(self).field == old(self).field, final(self)._low == old(self)._low,
    { self.deref_mut().set_name_unchecked(name) }
}

// #[derive(Tree)]
#[verifier::external_body] pub struct NodeTreeBase { p: usize }
//@ type @classes Grove
impl Grove {
//@ fn @classes <NodeTree for Grove>::set_base
    ensures final(self).base == Some(base), final(self).extra == old(self).extra,
//@ end
//@ fn @classes <NodeTree for Grove>::base | as=base_of
    requires self.base is Some,
    ensures *ret == self.base->0,
//@ end
//@ fn @classes <NodeTree for Grove>::base_mut | as=base_of_mut
    requires old(self).base is Some,
    ensures *ret == old(self).base->0, final(self).base == Some(*final(ret)), final(self).extra == old(self).extra,
//@ end
//@ fn @classes <Deref for Grove>::deref | subst=Self::Target=>NodeTreeBase
    requires self.base is Some,
    ensures *ret == self.base->0,
//@ end
//@ fn @classes <DerefMut for Grove>::deref_mut | subst=Self::Target=>NodeTreeBase
    requires old(self).base is Some,
    ensures *ret == old(self).base->0, final(self).base == Some(*final(ret)), final(self).extra == old(self).extra,
//@ end
}

/// A scene: its root node, and the scenes below it with the mark whether they own themselves.
#[verifier::external_body] pub struct NodeScene { p: usize }
pub trait Kind: Sized {}
impl Kind for All {}
impl Kind for Bare {}
impl Kind for Preset {}
impl Kind for Private {}
impl Kind for Ear {}
impl Kind for CameraNode {}
impl Kind for SubTree {}
impl Kind for PlayerNode {}
impl Kind for Node3D {}
impl Kind for SCREAM {}
impl Kind for X {}
impl Kind for Under_Score {}
impl Kind for _Low {}
impl Kind for AVeryLongClassNameThatGoesOnAndOnForever {}
impl Kind for Base {}
impl Kind for Scene {}
impl Kind for Nodes {}
impl Kind for TreeTop {}
impl Kind for Signals {}
impl Kind for Field1 {}
impl Kind for Kindly {}

/// The root node of the scene, and its class.
pub uninterp spec fn is_a<T>(s: NodeScene) -> bool;
pub uninterp spec fn top<T>(s: NodeScene) -> T;
pub uninterp spec fn same_scene(a: NodeScene, b: NodeScene) -> bool;
impl NodeScene {
    pub uninterp spec fn parts(&self) -> Seq<(NodeScene, bool)>;
    #[verifier::external_body] pub fn new<T: Kind>(node: T) -> (ret: Self) ensures is_a::<T>(ret), top::<T>(ret) == node, ret.parts().len() == 0 { unimplemented!() }
    #[verifier::external_body] pub fn append(&mut self, scene: NodeScene) ensures is_a::<All>(*final(self)) == is_a::<All>(*old(self)), top::<All>(*final(self)) == top::<All>(*old(self)), is_a::<Bare>(*final(self)) == is_a::<Bare>(*old(self)), top::<Bare>(*final(self)) == top::<Bare>(*old(self)), is_a::<Preset>(*final(self)) == is_a::<Preset>(*old(self)), top::<Preset>(*final(self)) == top::<Preset>(*old(self)), is_a::<Private>(*final(self)) == is_a::<Private>(*old(self)), top::<Private>(*final(self)) == top::<Private>(*old(self)), is_a::<Ear>(*final(self)) == is_a::<Ear>(*old(self)), top::<Ear>(*final(self)) == top::<Ear>(*old(self)), is_a::<CameraNode>(*final(self)) == is_a::<CameraNode>(*old(self)), top::<CameraNode>(*final(self)) == top::<CameraNode>(*old(self)), is_a::<SubTree>(*final(self)) == is_a::<SubTree>(*old(self)), top::<SubTree>(*final(self)) == top::<SubTree>(*old(self)), is_a::<PlayerNode>(*final(self)) == is_a::<PlayerNode>(*old(self)), top::<PlayerNode>(*final(self)) == top::<PlayerNode>(*old(self)), is_a::<Node3D>(*final(self)) == is_a::<Node3D>(*old(self)), top::<Node3D>(*final(self)) == top::<Node3D>(*old(self)), is_a::<SCREAM>(*final(self)) == is_a::<SCREAM>(*old(self)), top::<SCREAM>(*final(self)) == top::<SCREAM>(*old(self)), is_a::<X>(*final(self)) == is_a::<X>(*old(self)), top::<X>(*final(self)) == top::<X>(*old(self)), is_a::<Under_Score>(*final(self)) == is_a::<Under_Score>(*old(self)), top::<Under_Score>(*final(self)) == top::<Under_Score>(*old(self)), is_a::<_Low>(*final(self)) == is_a::<_Low>(*old(self)), top::<_Low>(*final(self)) == top::<_Low>(*old(self)), is_a::<AVeryLongClassNameThatGoesOnAndOnForever>(*final(self)) == is_a::<AVeryLongClassNameThatGoesOnAndOnForever>(*old(self)), top::<AVeryLongClassNameThatGoesOnAndOnForever>(*final(self)) == top::<AVeryLongClassNameThatGoesOnAndOnForever>(*old(self)), is_a::<Base>(*final(self)) == is_a::<Base>(*old(self)), top::<Base>(*final(self)) == top::<Base>(*old(self)), is_a::<Scene>(*final(self)) == is_a::<Scene>(*old(self)), top::<Scene>(*final(self)) == top::<Scene>(*old(self)), is_a::<Nodes>(*final(self)) == is_a::<Nodes>(*old(self)), top::<Nodes>(*final(self)) == top::<Nodes>(*old(self)), is_a::<TreeTop>(*final(self)) == is_a::<TreeTop>(*old(self)), top::<TreeTop>(*final(self)) == top::<TreeTop>(*old(self)), is_a::<Signals>(*final(self)) == is_a::<Signals>(*old(self)), top::<Signals>(*final(self)) == top::<Signals>(*old(self)), is_a::<Field1>(*final(self)) == is_a::<Field1>(*old(self)), top::<Field1>(*final(self)) == top::<Field1>(*old(self)), is_a::<Kindly>(*final(self)) == is_a::<Kindly>(*old(self)), top::<Kindly>(*final(self)) == top::<Kindly>(*old(self)),  final(self).parts() == old(self).parts().push((scene, false)) { unimplemented!() }
    #[verifier::external_body] pub fn append_as_owner(&mut self, scene: NodeScene) ensures is_a::<All>(*final(self)) == is_a::<All>(*old(self)), top::<All>(*final(self)) == top::<All>(*old(self)), is_a::<Bare>(*final(self)) == is_a::<Bare>(*old(self)), top::<Bare>(*final(self)) == top::<Bare>(*old(self)), is_a::<Preset>(*final(self)) == is_a::<Preset>(*old(self)), top::<Preset>(*final(self)) == top::<Preset>(*old(self)), is_a::<Private>(*final(self)) == is_a::<Private>(*old(self)), top::<Private>(*final(self)) == top::<Private>(*old(self)), is_a::<Ear>(*final(self)) == is_a::<Ear>(*old(self)), top::<Ear>(*final(self)) == top::<Ear>(*old(self)), is_a::<CameraNode>(*final(self)) == is_a::<CameraNode>(*old(self)), top::<CameraNode>(*final(self)) == top::<CameraNode>(*old(self)), is_a::<SubTree>(*final(self)) == is_a::<SubTree>(*old(self)), top::<SubTree>(*final(self)) == top::<SubTree>(*old(self)), is_a::<PlayerNode>(*final(self)) == is_a::<PlayerNode>(*old(self)), top::<PlayerNode>(*final(self)) == top::<PlayerNode>(*old(self)), is_a::<Node3D>(*final(self)) == is_a::<Node3D>(*old(self)), top::<Node3D>(*final(self)) == top::<Node3D>(*old(self)), is_a::<SCREAM>(*final(self)) == is_a::<SCREAM>(*old(self)), top::<SCREAM>(*final(self)) == top::<SCREAM>(*old(self)), is_a::<X>(*final(self)) == is_a::<X>(*old(self)), top::<X>(*final(self)) == top::<X>(*old(self)), is_a::<Under_Score>(*final(self)) == is_a::<Under_Score>(*old(self)), top::<Under_Score>(*final(self)) == top::<Under_Score>(*old(self)), is_a::<_Low>(*final(self)) == is_a::<_Low>(*old(self)), top::<_Low>(*final(self)) == top::<_Low>(*old(self)), is_a::<AVeryLongClassNameThatGoesOnAndOnForever>(*final(self)) == is_a::<AVeryLongClassNameThatGoesOnAndOnForever>(*old(self)), top::<AVeryLongClassNameThatGoesOnAndOnForever>(*final(self)) == top::<AVeryLongClassNameThatGoesOnAndOnForever>(*old(self)), is_a::<Base>(*final(self)) == is_a::<Base>(*old(self)), top::<Base>(*final(self)) == top::<Base>(*old(self)), is_a::<Scene>(*final(self)) == is_a::<Scene>(*old(self)), top::<Scene>(*final(self)) == top::<Scene>(*old(self)), is_a::<Nodes>(*final(self)) == is_a::<Nodes>(*old(self)), top::<Nodes>(*final(self)) == top::<Nodes>(*old(self)), is_a::<TreeTop>(*final(self)) == is_a::<TreeTop>(*old(self)), top::<TreeTop>(*final(self)) == top::<TreeTop>(*old(self)), is_a::<Signals>(*final(self)) == is_a::<Signals>(*old(self)), top::<Signals>(*final(self)) == top::<Signals>(*old(self)), is_a::<Field1>(*final(self)) == is_a::<Field1>(*old(self)), top::<Field1>(*final(self)) == top::<Field1>(*old(self)), is_a::<Kindly>(*final(self)) == is_a::<Kindly>(*old(self)), top::<Kindly>(*final(self)) == top::<Kindly>(*old(self)),  final(self).parts() == old(self).parts().push((scene, true)) { unimplemented!() }
    #[verifier::external_body] pub fn clone(&self) -> (ret: Self) ensures same_scene(ret, *self) { unimplemented!() }
}
//@ fn @classes one
    ensures
        is_a::<Bare>(ret) && top::<Bare>(ret).base.named() == "Bare"@ && top::<Bare>(ret).base.fresh(), ret.parts().len() == 0,
//@ end
//@ fn @classes named
    ensures
        is_a::<Bare>(ret) && top::<Bare>(ret).base.named() == "top"@ && top::<Bare>(ret).base.fresh(), ret.parts().len() == 0,
//@ end
//@ fn @classes row
    ensures
        is_a::<Bare>(ret) && top::<Bare>(ret).base.named() == "row"@ && top::<Bare>(ret).base.fresh(), ret.parts().len() == 3 && !ret.parts()[0].1 && !ret.parts()[1].1 && !ret.parts()[2].1,
        is_a::<All>(ret.parts()[0].0) && top::<All>(ret.parts()[0].0).base.named() == "a"@ && top::<All>(ret.parts()[0].0).base.fresh() && idle(top::<All>(ret.parts()[0].0).on_tick) && idle(top::<All>(ret.parts()[0].0).on_text) && idle(top::<All>(ret.parts()[0].0).on_hit) && top::<All>(ret.parts()[0].0).plain == Field::Valid(p) && top::<All>(ret.parts()[0].0).preset == Field::Valid(5i32) && top::<All>(ret.parts()[0].0).tag.0 == t && top::<All>(ret.parts()[0].0).count.0 == 9u32 && preset(top::<All>(ret.parts()[0].0).level.0) && preset(top::<All>(ret.parts()[0].0).score.0) && preset(top::<All>(ret.parts()[0].0).list.0) && preset(top::<All>(ret.parts()[0].0).maybe.0) && top::<All>(ret.parts()[0].0).once == UniqueField::Valid(7u64) && top::<All>(ret.parts()[0].0).spare == UniqueField::Valid(-3i8), ret.parts()[0].0.parts().len() == 0,
        is_a::<Bare>(ret.parts()[1].0) && top::<Bare>(ret.parts()[1].0).base.named() == "Bare"@ && top::<Bare>(ret.parts()[1].0).base.fresh(), ret.parts()[1].0.parts().len() == 0,
        is_a::<Preset>(ret.parts()[2].0) && top::<Preset>(ret.parts()[2].0).base.named() == "c"@ && top::<Preset>(ret.parts()[2].0).base.fresh() && top::<Preset>(ret.parts()[2].0).low.0 == -7i64 && top::<Preset>(ret.parts()[2].0).high == Field::Valid((1u64 << 40)) && preset(top::<Preset>(ret.parts()[2].0).flag.0) && preset(top::<Preset>(ret.parts()[2].0).word.0), ret.parts()[2].0.parts().len() == 0,
//@ end
//@ fn @classes nest
    ensures
        is_a::<All>(ret) && top::<All>(ret).base.named() == "root"@ && top::<All>(ret).base.fresh() && idle(top::<All>(ret).on_tick) && idle(top::<All>(ret).on_text) && idle(top::<All>(ret).on_hit) && top::<All>(ret).plain == Field::Valid(4u8) && top::<All>(ret).preset == Field::Valid(5i32) && top::<All>(ret).tag.0@ == "root"@ && top::<All>(ret).count.0 == 11u32 && preset(top::<All>(ret).level.0) && preset(top::<All>(ret).score.0) && preset(top::<All>(ret).list.0) && preset(top::<All>(ret).maybe.0) && top::<All>(ret).once == UniqueField::Valid(7u64) && top::<All>(ret).spare == UniqueField::Valid(-3i8), ret.parts().len() == 5 && !ret.parts()[0].1 && !ret.parts()[1].1 && !ret.parts()[2].1 && !ret.parts()[3].1 && !ret.parts()[4].1,
        is_a::<Bare>(ret.parts()[0].0) && top::<Bare>(ret.parts()[0].0).base.named() == "x"@ && top::<Bare>(ret.parts()[0].0).base.fresh(), ret.parts()[0].0.parts().len() == 3 && !ret.parts()[0].0.parts()[0].1 && !ret.parts()[0].0.parts()[1].1 && !ret.parts()[0].0.parts()[2].1,
        is_a::<Preset>(ret.parts()[0].0.parts()[0].0) && top::<Preset>(ret.parts()[0].0.parts()[0].0).base.named() == "Preset"@ && top::<Preset>(ret.parts()[0].0.parts()[0].0).base.fresh() && top::<Preset>(ret.parts()[0].0.parts()[0].0).low.0 == -8i64 && top::<Preset>(ret.parts()[0].0.parts()[0].0).high == Field::Valid(9u64) && preset(top::<Preset>(ret.parts()[0].0.parts()[0].0).flag.0) && preset(top::<Preset>(ret.parts()[0].0.parts()[0].0).word.0), ret.parts()[0].0.parts()[0].0.parts().len() == 0,
        same_scene(ret.parts()[0].0.parts()[1].0, *link),
        is_a::<Bare>(ret.parts()[0].0.parts()[2].0) && top::<Bare>(ret.parts()[0].0.parts()[2].0).base.named() == "Bare"@ && top::<Bare>(ret.parts()[0].0.parts()[2].0).base.fresh(), ret.parts()[0].0.parts()[2].0.parts().len() == 1 && !ret.parts()[0].0.parts()[2].0.parts()[0].1,
        is_a::<Bare>(ret.parts()[0].0.parts()[2].0.parts()[0].0) && top::<Bare>(ret.parts()[0].0.parts()[2].0.parts()[0].0).base.named() == "deep"@ && top::<Bare>(ret.parts()[0].0.parts()[2].0.parts()[0].0).base.fresh(), ret.parts()[0].0.parts()[2].0.parts()[0].0.parts().len() == 0,
        same_scene(ret.parts()[1].0, *link),
        is_a::<Preset>(ret.parts()[2].0) && top::<Preset>(ret.parts()[2].0).base.named() == "y"@ && top::<Preset>(ret.parts()[2].0).base.fresh() && top::<Preset>(ret.parts()[2].0).low.0 == -7i64 && top::<Preset>(ret.parts()[2].0).high == Field::Valid((1u64 << 40)) && preset(top::<Preset>(ret.parts()[2].0).flag.0) && top::<Preset>(ret.parts()[2].0).word.0@ == "w"@, ret.parts()[2].0.parts().len() == 0,
        is_a::<Preset>(ret.parts()[3].0) && top::<Preset>(ret.parts()[3].0).base.named() == "z"@ && top::<Preset>(ret.parts()[3].0).base.fresh() && top::<Preset>(ret.parts()[3].0).low.0 == -7i64 && top::<Preset>(ret.parts()[3].0).high == Field::Valid((1u64 << 40)) && top::<Preset>(ret.parts()[3].0).flag.0 == true && preset(top::<Preset>(ret.parts()[3].0).word.0), ret.parts()[3].0.parts().len() == 1 && !ret.parts()[3].0.parts()[0].1,
        is_a::<Bare>(ret.parts()[3].0.parts()[0].0) && top::<Bare>(ret.parts()[3].0.parts()[0].0).base.named() == "zz"@ && top::<Bare>(ret.parts()[3].0.parts()[0].0).base.fresh(), ret.parts()[3].0.parts()[0].0.parts().len() == 0,
        is_a::<All>(ret.parts()[4].0) && top::<All>(ret.parts()[4].0).base.named() == "All"@ && top::<All>(ret.parts()[4].0).base.fresh() && idle(top::<All>(ret.parts()[4].0).on_tick) && idle(top::<All>(ret.parts()[4].0).on_text) && idle(top::<All>(ret.parts()[4].0).on_hit) && top::<All>(ret.parts()[4].0).plain == Field::Valid(1u8) && top::<All>(ret.parts()[4].0).preset == Field::Valid(5i32) && top::<All>(ret.parts()[4].0).tag.0@ == "last"@ && top::<All>(ret.parts()[4].0).count.0 == 9u32 && preset(top::<All>(ret.parts()[4].0).level.0) && preset(top::<All>(ret.parts()[4].0).score.0) && preset(top::<All>(ret.parts()[4].0).list.0) && preset(top::<All>(ret.parts()[4].0).maybe.0) && top::<All>(ret.parts()[4].0).once == UniqueField::Valid(7u64) && top::<All>(ret.parts()[4].0).spare == UniqueField::Valid(-3i8), ret.parts()[4].0.parts().len() == 1 && !ret.parts()[4].0.parts()[0].1,
        same_scene(ret.parts()[4].0.parts()[0].0, *link),
//@ end
//@ fn @classes s0
    ensures
        is_a::<Signals>(ret),
        top::<Signals>(ret).base.named() == "_"@,
        top::<Signals>(ret).base.fresh(),
        (top::<Signals>(ret).wrap matches Field::Valid(z) && z@ == s@),
        preset(top::<Signals>(ret).field.0),
        top::<Signals>(ret).name == Field::Valid(-1509827042803370991i64),
        preset(top::<Signals>(ret).tp_.0),
        top::<Signals>(ret).ab.0 == true,
        preset(top::<Signals>(ret).unique.0),
        top::<Signals>(ret).kind == Field::Valid(-1i32),
        (top::<Signals>(ret).map matches Field::Valid(z) && z@ == s@),
        top::<Signals>(ret).init.0 == (if p == 7 { p } else { 0u8 }),
        top::<Signals>(ret).status == UniqueField::Valid(1u16),
        preset(top::<Signals>(ret).void.0),
        top::<Signals>(ret).declare == UniqueField::Valid(2147483647i32),
        top::<Signals>(ret).process_mode.0 == (!(p == 3)),
        top::<Signals>(ret).ba == UniqueField::Valid(0u64),
        preset(top::<Signals>(ret).rid.0),
        top::<Signals>(ret).parent.0 == 1u32,
        preset(top::<Signals>(ret).a.0),
        (top::<Signals>(ret).index matches Field::Valid(z) && z@ == Seq::<u8>::empty()),
        preset(top::<Signals>(ret).this.0),
        preset(top::<Signals>(ret).state.0),
        ret.parts().len() == 0,
//@ end
//@ fn @classes s1
    ensures
        is_a::<Kindly>(ret),
        top::<Kindly>(ret).base.named() == " pad "@,
        top::<Kindly>(ret).base.fresh(),
        preset(top::<Kindly>(ret).field.0),
        top::<Kindly>(ret)._low == Field::Valid(0u16),
        ret.parts().len() == 0,
//@ end
//@ fn @classes s2
    ensures
        is_a::<Scene>(ret),
        top::<Scene>(ret).base.named() == "Scene"@,
        top::<Scene>(ret).base.fresh(),
        top::<Scene>(ret).map.0@ == s@,
        ret.parts().len() == 3 && !ret.parts()[0].1 && !ret.parts()[1].1 && !ret.parts()[2].1,
        is_a::<Base>(ret.parts()[0].0),
        top::<Base>(ret.parts()[0].0).base.named() == "A name with spaces"@,
        top::<Base>(ret.parts()[0].0).base.fresh(),
        idle(top::<Base>(ret.parts()[0].0).scene),
        idle(top::<Base>(ret.parts()[0].0).value),
        preset(top::<Base>(ret.parts()[0].0).status.0),
        top::<Base>(ret.parts()[0].0).ba == UniqueField::Valid(-127i8),
        preset(top::<Base>(ret.parts()[0].0).tp_.0),
        top::<Base>(ret.parts()[0].0).data.0 == 1u8,
        top::<Base>(ret.parts()[0].0).signal.0 == -1248872451i32,
        top::<Base>(ret.parts()[0].0).count_of.0@ == Seq::<u8>::empty(),
        top::<Base>(ret.parts()[0].0).process_mode == UniqueField::Valid(826497231i32),
        top::<Base>(ret.parts()[0].0).mode.0 == 249024313598286716u64,
        (top::<Base>(ret.parts()[0].0).args matches Field::Valid(z) && z@ == Seq::<u8>::empty()),
        top::<Base>(ret.parts()[0].0).field == UniqueField::Valid(4294967295u32),
        (top::<Base>(ret.parts()[0].0).init matches Field::Valid(z) && z@ == Seq::<u8>::empty()),
        top::<Base>(ret.parts()[0].0).declare.0@ == s@,
        (top::<Base>(ret.parts()[0].0).x_1 matches UniqueField::Valid(z) && z@ == Seq::<u8>::empty()),
        top::<Base>(ret.parts()[0].0).owner.0 == 0u32,
        top::<Base>(ret.parts()[0].0).map == Field::Valid(1u8),
        preset(top::<Base>(ret.parts()[0].0).wrap.0),
        top::<Base>(ret.parts()[0].0).tag_2 == Field::Valid((p > 100)),
        top::<Base>(ret.parts()[0].0).b.0 == 2147483647i32,
        ret.parts()[0].0.parts().len() == 0,
        is_a::<Node3D>(ret.parts()[1].0),
        top::<Node3D>(ret.parts()[1].0).base.named() == "Node3D"@,
        top::<Node3D>(ret.parts()[1].0).base.fresh(),
        top::<Node3D>(ret.parts()[1].0).tag_1 == UniqueField::Valid(false),
        preset(top::<Node3D>(ret.parts()[1].0).take.0),
        top::<Node3D>(ret.parts()[1].0).root == UniqueField::Valid(p),
        top::<Node3D>(ret.parts()[1].0).children.0 == true,
        top::<Node3D>(ret.parts()[1].0).owner == Field::Valid((p > 100)),
        preset(top::<Node3D>(ret.parts()[1].0).x10.0),
        preset(top::<Node3D>(ret.parts()[1].0).parent.0),
        top::<Node3D>(ret.parts()[1].0).mode.0 == (!(p == 3)),
        top::<Node3D>(ret.parts()[1].0).rid == Field::Valid(o),
        top::<Node3D>(ret.parts()[1].0)._low.0 == (!(p == 3)),
        top::<Node3D>(ret.parts()[1].0).a == UniqueField::Valid(-1i64),
        preset(top::<Node3D>(ret.parts()[1].0).on_x.0),
        top::<Node3D>(ret.parts()[1].0).wrap.0 == 1u16,
        preset(top::<Node3D>(ret.parts()[1].0).ty.0),
        top::<Node3D>(ret.parts()[1].0).unique == Field::Valid(65535u16),
        preset(top::<Node3D>(ret.parts()[1].0).declare.0),
        top::<Node3D>(ret.parts()[1].0).signal == UniqueField::Valid(o),
        top::<Node3D>(ret.parts()[1].0).owned_state.0 == 3696680071u32,
        top::<Node3D>(ret.parts()[1].0).kind == Field::Valid((!(p == 3))),
        preset(top::<Node3D>(ret.parts()[1].0).name.0),
        ret.parts()[1].0.parts().len() == 2 && !ret.parts()[1].0.parts()[0].1 && !ret.parts()[1].0.parts()[1].1,
        is_a::<PlayerNode>(ret.parts()[1].0.parts()[0].0),
        top::<PlayerNode>(ret.parts()[1].0.parts()[0].0).base.named() == "PlayerNode"@,
        top::<PlayerNode>(ret.parts()[1].0.parts()[0].0).base.fresh(),
        top::<PlayerNode>(ret.parts()[1].0.parts()[0].0).kind == UniqueField::Valid((!(p == 3))),
        ret.parts()[1].0.parts()[0].0.parts().len() == 2 && !ret.parts()[1].0.parts()[0].0.parts()[0].1 && !ret.parts()[1].0.parts()[0].0.parts()[1].1,
        same_scene(ret.parts()[1].0.parts()[0].0.parts()[0].0, *link),
        is_a::<Node3D>(ret.parts()[1].0.parts()[0].0.parts()[1].0),
        top::<Node3D>(ret.parts()[1].0.parts()[0].0.parts()[1].0).base.named() == "Node3D"@,
        top::<Node3D>(ret.parts()[1].0.parts()[0].0.parts()[1].0).base.fresh(),
        top::<Node3D>(ret.parts()[1].0.parts()[0].0.parts()[1].0).tag_1 == UniqueField::Valid(false),
        preset(top::<Node3D>(ret.parts()[1].0.parts()[0].0.parts()[1].0).take.0),
        top::<Node3D>(ret.parts()[1].0.parts()[0].0.parts()[1].0).root == UniqueField::Valid(0u8),
        top::<Node3D>(ret.parts()[1].0.parts()[0].0.parts()[1].0).children.0 == true,
        top::<Node3D>(ret.parts()[1].0.parts()[0].0.parts()[1].0).owner == Field::Valid(false),
        preset(top::<Node3D>(ret.parts()[1].0.parts()[0].0.parts()[1].0).x10.0),
        preset(top::<Node3D>(ret.parts()[1].0.parts()[0].0.parts()[1].0).parent.0),
        preset(top::<Node3D>(ret.parts()[1].0.parts()[0].0.parts()[1].0).mode.0),
        top::<Node3D>(ret.parts()[1].0.parts()[0].0.parts()[1].0).rid == Field::Valid(o),
        top::<Node3D>(ret.parts()[1].0.parts()[0].0.parts()[1].0)._low.0 == true,
        top::<Node3D>(ret.parts()[1].0.parts()[0].0.parts()[1].0).a == UniqueField::Valid(-1i64),
        preset(top::<Node3D>(ret.parts()[1].0.parts()[0].0.parts()[1].0).on_x.0),
        preset(top::<Node3D>(ret.parts()[1].0.parts()[0].0.parts()[1].0).wrap.0),
        preset(top::<Node3D>(ret.parts()[1].0.parts()[0].0.parts()[1].0).ty.0),
        top::<Node3D>(ret.parts()[1].0.parts()[0].0.parts()[1].0).unique == Field::Valid(0u16),
        preset(top::<Node3D>(ret.parts()[1].0.parts()[0].0.parts()[1].0).declare.0),
        top::<Node3D>(ret.parts()[1].0.parts()[0].0.parts()[1].0).signal == UniqueField::Valid(o),
        top::<Node3D>(ret.parts()[1].0.parts()[0].0.parts()[1].0).owned_state.0 == 1334769381u32,
        top::<Node3D>(ret.parts()[1].0.parts()[0].0.parts()[1].0).kind == Field::Valid((!(p == 3))),
        top::<Node3D>(ret.parts()[1].0.parts()[0].0.parts()[1].0).name.0@ == s@,
        ret.parts()[1].0.parts()[0].0.parts()[1].0.parts().len() == 0,
        is_a::<Field1>(ret.parts()[1].0.parts()[1].0),
        top::<Field1>(ret.parts()[1].0.parts()[1].0).base.named() == "a/b"@,
        top::<Field1>(ret.parts()[1].0.parts()[1].0).base.fresh(),
        idle(top::<Field1>(ret.parts()[1].0.parts()[1].0).scene),
        idle(top::<Field1>(ret.parts()[1].0.parts()[1].0).owned_state),
        top::<Field1>(ret.parts()[1].0.parts()[1].0).declare == UniqueField::Valid(false),
        top::<Field1>(ret.parts()[1].0.parts()[1].0).rid == Field::Valid(o),
        top::<Field1>(ret.parts()[1].0.parts()[1].0).kind == Field::Valid(1i8),
        (top::<Field1>(ret.parts()[1].0.parts()[1].0).ab matches Field::Valid(z) && z@ == s@),
        (top::<Field1>(ret.parts()[1].0.parts()[1].0).name matches Field::Valid(z) && z@ == s@),
        (top::<Field1>(ret.parts()[1].0.parts()[1].0).on_name matches UniqueField::Valid(z) && z@ == s@),
        preset(top::<Field1>(ret.parts()[1].0.parts()[1].0).a.0),
        top::<Field1>(ret.parts()[1].0.parts()[1].0).x_1 == Field::Valid((p > 100)),
        preset(top::<Field1>(ret.parts()[1].0.parts()[1].0).camelCase.0),
        (top::<Field1>(ret.parts()[1].0.parts()[1].0).value matches Field::Valid(z) && z@ == s@),
        preset(top::<Field1>(ret.parts()[1].0.parts()[1].0).take.0),
        top::<Field1>(ret.parts()[1].0.parts()[1].0).mode == Field::Valid(0u64),
        preset(top::<Field1>(ret.parts()[1].0.parts()[1].0)._init.0),
        preset(top::<Field1>(ret.parts()[1].0.parts()[1].0).base_.0),
        top::<Field1>(ret.parts()[1].0.parts()[1].0).export == Field::Valid(9223372036854775807u64),
        top::<Field1>(ret.parts()[1].0.parts()[1].0).data == UniqueField::Valid(o),
        top::<Field1>(ret.parts()[1].0.parts()[1].0).args == Field::Valid(false),
        top::<Field1>(ret.parts()[1].0.parts()[1].0).is_ghost == Field::Valid(4294967295u32),
        preset(top::<Field1>(ret.parts()[1].0.parts()[1].0).map.0),
        top::<Field1>(ret.parts()[1].0.parts()[1].0).unique == Field::Valid(false),
        top::<Field1>(ret.parts()[1].0.parts()[1].0).hk == Field::Valid(o),
        top::<Field1>(ret.parts()[1].0.parts()[1].0).status.0 == 0u32,
        ret.parts()[1].0.parts()[1].0.parts().len() == 1 && !ret.parts()[1].0.parts()[1].0.parts()[0].1,
        is_a::<SubTree>(ret.parts()[1].0.parts()[1].0.parts()[0].0),
        top::<SubTree>(ret.parts()[1].0.parts()[1].0.parts()[0].0).base.named() == " pad "@,
        top::<SubTree>(ret.parts()[1].0.parts()[1].0.parts()[0].0).base.fresh(),
        top::<SubTree>(ret.parts()[1].0.parts()[1].0.parts()[0].0).parent == UniqueField::Valid(483299375i32),
        top::<SubTree>(ret.parts()[1].0.parts()[1].0.parts()[0].0).root.0@ == s@,
        top::<SubTree>(ret.parts()[1].0.parts()[1].0.parts()[0].0).wrap.0 == 0u16,
        preset(top::<SubTree>(ret.parts()[1].0.parts()[1].0.parts()[0].0).camelCase.0),
        preset(top::<SubTree>(ret.parts()[1].0.parts()[1].0.parts()[0].0).count_of.0),
        preset(top::<SubTree>(ret.parts()[1].0.parts()[1].0.parts()[0].0).new.0),
        top::<SubTree>(ret.parts()[1].0.parts()[1].0.parts()[0].0).tree.0 == -4611686018427387904i64,
        preset(top::<SubTree>(ret.parts()[1].0.parts()[1].0.parts()[0].0).__deep.0),
        ret.parts()[1].0.parts()[1].0.parts()[0].0.parts().len() == 0,
        is_a::<PlayerNode>(ret.parts()[2].0),
        top::<PlayerNode>(ret.parts()[2].0).base.named() == "PlayerNode"@,
        top::<PlayerNode>(ret.parts()[2].0).base.fresh(),
        top::<PlayerNode>(ret.parts()[2].0).kind == UniqueField::Valid(true),
        ret.parts()[2].0.parts().len() == 0,
//@ end
//@ fn @classes s3
    ensures
        is_a::<TreeTop>(ret),
        top::<TreeTop>(ret).base.named() == "Node2"@,
        top::<TreeTop>(ret).base.fresh(),
        idle(top::<TreeTop>(ret).x10),
        idle(top::<TreeTop>(ret).count_of),
        top::<TreeTop>(ret).void.0 == 0u32,
        top::<TreeTop>(ret).init == Field::Valid(0u32),
        top::<TreeTop>(ret).this_name_is_longer_than_any_other_name_in_this_file == Field::Valid(o),
        top::<TreeTop>(ret).a_ == Field::Valid(-2085820261207421192i64),
        preset(top::<TreeTop>(ret).tag_2.0),
        preset(top::<TreeTop>(ret).on_x.0),
        preset(top::<TreeTop>(ret).ty.0),
        preset(top::<TreeTop>(ret)._init.0),
        top::<TreeTop>(ret).camelCase == UniqueField::Valid(-1i64),
        preset(top::<TreeTop>(ret).r_type.0),
        preset(top::<TreeTop>(ret).mode.0),
        top::<TreeTop>(ret).bases.0 == 0u8,
        top::<TreeTop>(ret).args == UniqueField::Valid(1i64),
        top::<TreeTop>(ret).new == UniqueField::Valid(true),
        preset(top::<TreeTop>(ret).b.0),
        top::<TreeTop>(ret).data == UniqueField::Valid(-1i64),
        preset(top::<TreeTop>(ret).a.0),
        top::<TreeTop>(ret).rid == Field::Valid(0u64),
        ret.parts().len() == 3 && !ret.parts()[0].1 && !ret.parts()[1].1 && !ret.parts()[2].1,
        is_a::<SCREAM>(ret.parts()[0].0),
        top::<SCREAM>(ret.parts()[0].0).base.named() == "SCREAM"@,
        top::<SCREAM>(ret.parts()[0].0).base.fresh(),
        idle(top::<SCREAM>(ret.parts()[0].0).aa),
        preset(top::<SCREAM>(ret.parts()[0].0).unique.0),
        top::<SCREAM>(ret.parts()[0].0).tp_.0 == o,
        top::<SCREAM>(ret.parts()[0].0).camelCase == Field::Valid(false),
        preset(top::<SCREAM>(ret.parts()[0].0)._init.0),
        preset(top::<SCREAM>(ret.parts()[0].0).children.0),
        top::<SCREAM>(ret.parts()[0].0).a == Field::Valid(o),
        top::<SCREAM>(ret.parts()[0].0).x10 == Field::Valid(-4611686018427387904i64),
        top::<SCREAM>(ret.parts()[0].0).wrap.0 == 0u32,
        top::<SCREAM>(ret.parts()[0].0).x1.0 == true,
        preset(top::<SCREAM>(ret.parts()[0].0).r_type.0),
        top::<SCREAM>(ret.parts()[0].0).is_ghost.0@ == s@,
        ret.parts()[0].0.parts().len() == 0,
        same_scene(ret.parts()[1].0, *link),
        is_a::<PlayerNode>(ret.parts()[2].0),
        top::<PlayerNode>(ret.parts()[2].0).base.named() == "Bare"@,
        top::<PlayerNode>(ret.parts()[2].0).base.fresh(),
        top::<PlayerNode>(ret.parts()[2].0).kind == UniqueField::Valid((p > 100)),
        ret.parts()[2].0.parts().len() == 0,
//@ end
//@ fn @classes s4
    ensures
        is_a::<Node3D>(ret),
        top::<Node3D>(ret).base.named() == "Node3D"@,
        top::<Node3D>(ret).base.fresh(),
        top::<Node3D>(ret).tag_1 == UniqueField::Valid(false),
        preset(top::<Node3D>(ret).take.0),
        top::<Node3D>(ret).root == UniqueField::Valid(1u8),
        top::<Node3D>(ret).children.0 == (p > 100),
        top::<Node3D>(ret).owner == Field::Valid(false),
        preset(top::<Node3D>(ret).x10.0),
        preset(top::<Node3D>(ret).parent.0),
        top::<Node3D>(ret).mode.0 == false,
        top::<Node3D>(ret).rid == Field::Valid(o),
        top::<Node3D>(ret)._low.0 == true,
        top::<Node3D>(ret).a == UniqueField::Valid(-1i64),
        preset(top::<Node3D>(ret).on_x.0),
        preset(top::<Node3D>(ret).wrap.0),
        preset(top::<Node3D>(ret).ty.0),
        top::<Node3D>(ret).unique == Field::Valid(29511u16),
        preset(top::<Node3D>(ret).declare.0),
        top::<Node3D>(ret).signal == UniqueField::Valid(o),
        top::<Node3D>(ret).owned_state.0 == 4294967295u32,
        top::<Node3D>(ret).kind == Field::Valid(true),
        top::<Node3D>(ret).name.0@ == s@,
        ret.parts().len() == 0,
//@ end
//@ fn @classes s5
    ensures
        is_a::<SCREAM>(ret),
        top::<SCREAM>(ret).base.named() == " pad "@,
        top::<SCREAM>(ret).base.fresh(),
        idle(top::<SCREAM>(ret).aa),
        preset(top::<SCREAM>(ret).unique.0),
        preset(top::<SCREAM>(ret).tp_.0),
        top::<SCREAM>(ret).camelCase == Field::Valid((p > 100)),
        preset(top::<SCREAM>(ret)._init.0),
        preset(top::<SCREAM>(ret).children.0),
        top::<SCREAM>(ret).a == Field::Valid(o),
        top::<SCREAM>(ret).x10 == Field::Valid(-4611686018427387904i64),
        top::<SCREAM>(ret).wrap.0 == 0u32,
        top::<SCREAM>(ret).x1.0 == false,
        preset(top::<SCREAM>(ret).r_type.0),
        top::<SCREAM>(ret).is_ghost.0@ == s@,
        ret.parts().len() == 2 && !ret.parts()[0].1 && !ret.parts()[1].1,
        same_scene(ret.parts()[0].0, *link),
        is_a::<Base>(ret.parts()[1].0),
        top::<Base>(ret.parts()[1].0).base.named() == "Base"@,
        top::<Base>(ret.parts()[1].0).base.fresh(),
        idle(top::<Base>(ret.parts()[1].0).scene),
        idle(top::<Base>(ret.parts()[1].0).value),
        preset(top::<Base>(ret.parts()[1].0).status.0),
        top::<Base>(ret.parts()[1].0).ba == UniqueField::Valid(-127i8),
        preset(top::<Base>(ret.parts()[1].0).tp_.0),
        top::<Base>(ret.parts()[1].0).data.0 == 0u8,
        top::<Base>(ret.parts()[1].0).signal.0 == -1248872451i32,
        top::<Base>(ret.parts()[1].0).count_of.0@ == Seq::<u8>::empty(),
        top::<Base>(ret.parts()[1].0).process_mode == UniqueField::Valid(-2147483647i32),
        top::<Base>(ret.parts()[1].0).mode.0 == 9223372036854775807u64,
        (top::<Base>(ret.parts()[1].0).args matches Field::Valid(z) && z@ == Seq::<u8>::empty()),
        top::<Base>(ret.parts()[1].0).field == UniqueField::Valid(1u32),
        (top::<Base>(ret.parts()[1].0).init matches Field::Valid(z) && z@ == Seq::<u8>::empty()),
        preset(top::<Base>(ret.parts()[1].0).declare.0),
        (top::<Base>(ret.parts()[1].0).x_1 matches UniqueField::Valid(z) && z@ == Seq::<u8>::empty()),
        top::<Base>(ret.parts()[1].0).owner.0 == 0u32,
        top::<Base>(ret.parts()[1].0).map == Field::Valid(1u8),
        preset(top::<Base>(ret.parts()[1].0).wrap.0),
        top::<Base>(ret.parts()[1].0).tag_2 == Field::Valid(false),
        top::<Base>(ret.parts()[1].0).b.0 == 2147483647i32,
        ret.parts()[1].0.parts().len() == 1 && !ret.parts()[1].0.parts()[0].1,
        is_a::<Nodes>(ret.parts()[1].0.parts()[0].0),
        top::<Nodes>(ret.parts()[1].0.parts()[0].0).base.named() == ""@,
        top::<Nodes>(ret.parts()[1].0.parts()[0].0).base.fresh(),
        preset(top::<Nodes>(ret.parts()[1].0.parts()[0].0).class.0),
        (top::<Nodes>(ret.parts()[1].0.parts()[0].0).process_mode matches Field::Valid(z) && z@ == s@),
        ret.parts()[1].0.parts()[0].0.parts().len() == 0,
//@ end
//@ fn @classes s6
    ensures
        is_a::<SubTree>(ret),
        top::<SubTree>(ret).base.named() == "SubTree"@,
        top::<SubTree>(ret).base.fresh(),
        top::<SubTree>(ret).parent == UniqueField::Valid(-1i32),
        top::<SubTree>(ret).root.0@ == s@,
        top::<SubTree>(ret).wrap.0 == 65535u16,
        preset(top::<SubTree>(ret).camelCase.0),
        preset(top::<SubTree>(ret).count_of.0),
        preset(top::<SubTree>(ret).new.0),
        top::<SubTree>(ret).tree.0 == -4611686018427387904i64,
        preset(top::<SubTree>(ret).__deep.0),
        ret.parts().len() == 5 && !ret.parts()[0].1 && !ret.parts()[1].1 && !ret.parts()[2].1 && !ret.parts()[3].1 && !ret.parts()[4].1,
        is_a::<X>(ret.parts()[0].0),
        top::<X>(ret.parts()[0].0).base.named() == "x1"@,
        top::<X>(ret.parts()[0].0).base.fresh(),
        idle(top::<X>(ret.parts()[0].0).r_type),
        idle(top::<X>(ret.parts()[0].0).rid),
        top::<X>(ret.parts()[0].0)._init == Field::Valid(0u16),
        top::<X>(ret.parts()[0].0).tag_11 == Field::Valid(1i64),
        top::<X>(ret.parts()[0].0).field == Field::Valid(o),
        top::<X>(ret.parts()[0].0).new == UniqueField::Valid(0u16),
        top::<X>(ret.parts()[0].0).a_.0@ == Seq::<u8>::empty(),
        top::<X>(ret.parts()[0].0).x_1 == Field::Valid(127i8),
        top::<X>(ret.parts()[0].0).count_of == Field::Valid(127i8),
        preset(top::<X>(ret.parts()[0].0).parent.0),
        top::<X>(ret.parts()[0].0).args == Field::Valid(o),
        preset(top::<X>(ret.parts()[0].0).tag_2.0),
        ret.parts()[0].0.parts().len() == 1 && !ret.parts()[0].0.parts()[0].1,
        is_a::<_Low>(ret.parts()[0].0.parts()[0].0),
        top::<_Low>(ret.parts()[0].0.parts()[0].0).base.named() == "Bare"@,
        top::<_Low>(ret.parts()[0].0.parts()[0].0).base.fresh(),
        idle(top::<_Low>(ret.parts()[0].0.parts()[0].0).data),
        idle(top::<_Low>(ret.parts()[0].0.parts()[0].0).a_),
        idle(top::<_Low>(ret.parts()[0].0.parts()[0].0).default),
        top::<_Low>(ret.parts()[0].0.parts()[0].0).mode.0 == 1u32,
        preset(top::<_Low>(ret.parts()[0].0.parts()[0].0).args.0),
        (top::<_Low>(ret.parts()[0].0.parts()[0].0).x matches Field::Valid(z) && z@ == s@),
        top::<_Low>(ret.parts()[0].0.parts()[0].0).bases.0 == 2147483647i32,
        top::<_Low>(ret.parts()[0].0.parts()[0].0).x1 == UniqueField::Valid(0i32),
        top::<_Low>(ret.parts()[0].0.parts()[0].0).init == Field::Valid(true),
        (top::<_Low>(ret.parts()[0].0.parts()[0].0).__deep matches UniqueField::Valid(z) && z@ == s@),
        top::<_Low>(ret.parts()[0].0.parts()[0].0).tag_2 == Field::Valid(-1i64),
        top::<_Low>(ret.parts()[0].0.parts()[0].0).camelCase.0 == 4u64,
        top::<_Low>(ret.parts()[0].0.parts()[0].0).r_type.0 == 2147483647i32,
        top::<_Low>(ret.parts()[0].0.parts()[0].0).tp_.0 == -2147483647i32,
        (top::<_Low>(ret.parts()[0].0.parts()[0].0)._init matches UniqueField::Valid(z) && z@ == Seq::<u8>::empty()),
        top::<_Low>(ret.parts()[0].0.parts()[0].0).children.0 == 0u64,
        top::<_Low>(ret.parts()[0].0.parts()[0].0).name.0@ == s@,
        top::<_Low>(ret.parts()[0].0.parts()[0].0).on_x == UniqueField::Valid(4611686018427387904i64),
        top::<_Low>(ret.parts()[0].0.parts()[0].0).tag_1 == UniqueField::Valid(2u32),
        top::<_Low>(ret.parts()[0].0.parts()[0].0).root == UniqueField::Valid(0u16),
        (top::<_Low>(ret.parts()[0].0.parts()[0].0).rid matches UniqueField::Valid(z) && z@ == Seq::<u8>::empty()),
        top::<_Low>(ret.parts()[0].0.parts()[0].0).tag_11.0@ == Seq::<u8>::empty(),
        preset(top::<_Low>(ret.parts()[0].0.parts()[0].0).class.0),
        top::<_Low>(ret.parts()[0].0.parts()[0].0).count_of == UniqueField::Valid(o),
        ret.parts()[0].0.parts()[0].0.parts().len() == 0,
        is_a::<PlayerNode>(ret.parts()[1].0),
        top::<PlayerNode>(ret.parts()[1].0).base.named() == "007"@,
        top::<PlayerNode>(ret.parts()[1].0).base.fresh(),
        top::<PlayerNode>(ret.parts()[1].0).kind == UniqueField::Valid((p > 100)),
        ret.parts()[1].0.parts().len() == 2 && !ret.parts()[1].0.parts()[0].1 && !ret.parts()[1].0.parts()[1].1,
        is_a::<CameraNode>(ret.parts()[1].0.parts()[0].0),
        top::<CameraNode>(ret.parts()[1].0.parts()[0].0).base.named() == ".."@,
        top::<CameraNode>(ret.parts()[1].0.parts()[0].0).base.fresh(),
        (top::<CameraNode>(ret.parts()[1].0.parts()[0].0).y matches Field::Valid(z) && z@ == Seq::<u8>::empty()),
        top::<CameraNode>(ret.parts()[1].0.parts()[0].0).node.0@ == s@,
        top::<CameraNode>(ret.parts()[1].0.parts()[0].0).hk.0@ == Seq::<u8>::empty(),
        preset(top::<CameraNode>(ret.parts()[1].0.parts()[0].0).count_of.0),
        preset(top::<CameraNode>(ret.parts()[1].0.parts()[0].0).tag_1.0),
        top::<CameraNode>(ret.parts()[1].0.parts()[0].0).wrap == Field::Valid(0u8),
        top::<CameraNode>(ret.parts()[1].0.parts()[0].0).is_ghost == Field::Valid(0i8),
        top::<CameraNode>(ret.parts()[1].0.parts()[0].0).ba.0 == p,
        ret.parts()[1].0.parts()[0].0.parts().len() == 0,
        same_scene(ret.parts()[1].0.parts()[1].0, *link),
        same_scene(ret.parts()[2].0, *link),
        is_a::<Kindly>(ret.parts()[3].0),
        top::<Kindly>(ret.parts()[3].0).base.named() == "Kindly"@,
        top::<Kindly>(ret.parts()[3].0).base.fresh(),
        preset(top::<Kindly>(ret.parts()[3].0).field.0),
        top::<Kindly>(ret.parts()[3].0)._low == Field::Valid(0u16),
        ret.parts()[3].0.parts().len() == 2 && !ret.parts()[3].0.parts()[0].1 && !ret.parts()[3].0.parts()[1].1,
        is_a::<Node3D>(ret.parts()[3].0.parts()[0].0),
        top::<Node3D>(ret.parts()[3].0.parts()[0].0).base.named() == "name"@,
        top::<Node3D>(ret.parts()[3].0.parts()[0].0).base.fresh(),
        top::<Node3D>(ret.parts()[3].0.parts()[0].0).tag_1 == UniqueField::Valid(false),
        top::<Node3D>(ret.parts()[3].0.parts()[0].0).take.0@ == s@,
        top::<Node3D>(ret.parts()[3].0.parts()[0].0).root == UniqueField::Valid((if p > 3 { 1u8 } else { 2u8 })),
        top::<Node3D>(ret.parts()[3].0.parts()[0].0).children.0 == (p > 100),
        top::<Node3D>(ret.parts()[3].0.parts()[0].0).owner == Field::Valid(true),
        preset(top::<Node3D>(ret.parts()[3].0.parts()[0].0).x10.0),
        top::<Node3D>(ret.parts()[3].0.parts()[0].0).parent.0 == 0u32,
        preset(top::<Node3D>(ret.parts()[3].0.parts()[0].0).mode.0),
        top::<Node3D>(ret.parts()[3].0.parts()[0].0).rid == Field::Valid(o),
        top::<Node3D>(ret.parts()[3].0.parts()[0].0)._low.0 == (!(p == 3)),
        top::<Node3D>(ret.parts()[3].0.parts()[0].0).a == UniqueField::Valid(-1i64),
        preset(top::<Node3D>(ret.parts()[3].0.parts()[0].0).on_x.0),
        top::<Node3D>(ret.parts()[3].0.parts()[0].0).wrap.0 == 0u16,
        preset(top::<Node3D>(ret.parts()[3].0.parts()[0].0).ty.0),
        top::<Node3D>(ret.parts()[3].0.parts()[0].0).unique == Field::Valid(46068u16),
        top::<Node3D>(ret.parts()[3].0.parts()[0].0).declare.0 == 1i8,
        top::<Node3D>(ret.parts()[3].0.parts()[0].0).signal == UniqueField::Valid(o),
        top::<Node3D>(ret.parts()[3].0.parts()[0].0).owned_state.0 == 3696680071u32,
        top::<Node3D>(ret.parts()[3].0.parts()[0].0).kind == Field::Valid(true),
        preset(top::<Node3D>(ret.parts()[3].0.parts()[0].0).name.0),
        ret.parts()[3].0.parts()[0].0.parts().len() == 0,
        same_scene(ret.parts()[3].0.parts()[1].0, *link),
        is_a::<Kindly>(ret.parts()[4].0),
        top::<Kindly>(ret.parts()[4].0).base.named() == "Kindly"@,
        top::<Kindly>(ret.parts()[4].0).base.fresh(),
        preset(top::<Kindly>(ret.parts()[4].0).field.0),
        top::<Kindly>(ret.parts()[4].0)._low == Field::Valid(0u16),
        ret.parts()[4].0.parts().len() == 0,
//@ end
//@ fn @classes s7
    ensures
        is_a::<Node3D>(ret),
        top::<Node3D>(ret).base.named() == "a/b"@,
        top::<Node3D>(ret).base.fresh(),
        top::<Node3D>(ret).tag_1 == UniqueField::Valid(false),
        preset(top::<Node3D>(ret).take.0),
        top::<Node3D>(ret).root == UniqueField::Valid((if p == 7 { p } else { 0u8 })),
        top::<Node3D>(ret).children.0 == true,
        top::<Node3D>(ret).owner == Field::Valid(true),
        preset(top::<Node3D>(ret).x10.0),
        preset(top::<Node3D>(ret).parent.0),
        top::<Node3D>(ret).mode.0 == (p > 100),
        top::<Node3D>(ret).rid == Field::Valid(o),
        top::<Node3D>(ret)._low.0 == true,
        top::<Node3D>(ret).a == UniqueField::Valid(-1i64),
        preset(top::<Node3D>(ret).on_x.0),
        top::<Node3D>(ret).wrap.0 == 1u16,
        preset(top::<Node3D>(ret).ty.0),
        top::<Node3D>(ret).unique == Field::Valid(65318u16),
        top::<Node3D>(ret).declare.0 == 104i8,
        top::<Node3D>(ret).signal == UniqueField::Valid(o),
        top::<Node3D>(ret).owned_state.0 == 3696680071u32,
        top::<Node3D>(ret).kind == Field::Valid(true),
        top::<Node3D>(ret).name.0@ == s@,
        ret.parts().len() == 2 && !ret.parts()[0].1 && !ret.parts()[1].1,
        is_a::<SCREAM>(ret.parts()[0].0),
        top::<SCREAM>(ret.parts()[0].0).base.named() == "SCREAM"@,
        top::<SCREAM>(ret.parts()[0].0).base.fresh(),
        idle(top::<SCREAM>(ret.parts()[0].0).aa),
        preset(top::<SCREAM>(ret.parts()[0].0).unique.0),
        preset(top::<SCREAM>(ret.parts()[0].0).tp_.0),
        top::<SCREAM>(ret.parts()[0].0).camelCase == Field::Valid(false),
        preset(top::<SCREAM>(ret.parts()[0].0)._init.0),
        preset(top::<SCREAM>(ret.parts()[0].0).children.0),
        top::<SCREAM>(ret.parts()[0].0).a == Field::Valid(o),
        top::<SCREAM>(ret.parts()[0].0).x10 == Field::Valid(-4611686018427387904i64),
        top::<SCREAM>(ret.parts()[0].0).wrap.0 == 0u32,
        top::<SCREAM>(ret.parts()[0].0).x1.0 == false,
        preset(top::<SCREAM>(ret.parts()[0].0).r_type.0),
        top::<SCREAM>(ret.parts()[0].0).is_ghost.0@ == s@,
        ret.parts()[0].0.parts().len() == 0,
        is_a::<SCREAM>(ret.parts()[1].0),
        top::<SCREAM>(ret.parts()[1].0).base.named() == "Node2"@,
        top::<SCREAM>(ret.parts()[1].0).base.fresh(),
        idle(top::<SCREAM>(ret.parts()[1].0).aa),
        preset(top::<SCREAM>(ret.parts()[1].0).unique.0),
        preset(top::<SCREAM>(ret.parts()[1].0).tp_.0),
        top::<SCREAM>(ret.parts()[1].0).camelCase == Field::Valid(true),
        preset(top::<SCREAM>(ret.parts()[1].0)._init.0),
        top::<SCREAM>(ret.parts()[1].0).children.0 == 9u32,
        top::<SCREAM>(ret.parts()[1].0).a == Field::Valid(o),
        top::<SCREAM>(ret.parts()[1].0).x10 == Field::Valid(-4611686018427387904i64),
        top::<SCREAM>(ret.parts()[1].0).wrap.0 == 0u32,
        top::<SCREAM>(ret.parts()[1].0).x1.0 == true,
        preset(top::<SCREAM>(ret.parts()[1].0).r_type.0),
        preset(top::<SCREAM>(ret.parts()[1].0).is_ghost.0),
        ret.parts()[1].0.parts().len() == 2 && !ret.parts()[1].0.parts()[0].1 && !ret.parts()[1].0.parts()[1].1,
        same_scene(ret.parts()[1].0.parts()[0].0, *link),
        same_scene(ret.parts()[1].0.parts()[1].0, *link),
//@ end
//@ fn @classes chain
    ensures
        is_a::<PlayerNode>(ret),
        top::<PlayerNode>(ret).base.named() == "tab\t"@,
        top::<PlayerNode>(ret).base.fresh(),
        top::<PlayerNode>(ret).kind == UniqueField::Valid((p > 100)),
        ret.parts().len() == 1 && !ret.parts()[0].1,
        is_a::<Field1>(ret.parts()[0].0),
        top::<Field1>(ret.parts()[0].0).base.named() == "q\"q"@,
        top::<Field1>(ret.parts()[0].0).base.fresh(),
        idle(top::<Field1>(ret.parts()[0].0).scene),
        idle(top::<Field1>(ret.parts()[0].0).owned_state),
        top::<Field1>(ret.parts()[0].0).declare == UniqueField::Valid(true),
        top::<Field1>(ret.parts()[0].0).rid == Field::Valid(o),
        top::<Field1>(ret.parts()[0].0).kind == Field::Valid(9i8),
        (top::<Field1>(ret.parts()[0].0).ab matches Field::Valid(z) && z@ == s@),
        (top::<Field1>(ret.parts()[0].0).name matches Field::Valid(z) && z@ == s@),
        (top::<Field1>(ret.parts()[0].0).on_name matches UniqueField::Valid(z) && z@ == s@),
        top::<Field1>(ret.parts()[0].0).a.0@ == s@,
        top::<Field1>(ret.parts()[0].0).x_1 == Field::Valid(true),
        preset(top::<Field1>(ret.parts()[0].0).camelCase.0),
        (top::<Field1>(ret.parts()[0].0).value matches Field::Valid(z) && z@ == s@),
        preset(top::<Field1>(ret.parts()[0].0).take.0),
        top::<Field1>(ret.parts()[0].0).mode == Field::Valid(0u64),
        top::<Field1>(ret.parts()[0].0)._init.0 == o,
        top::<Field1>(ret.parts()[0].0).base_.0 == 2u32,
        top::<Field1>(ret.parts()[0].0).export == Field::Valid(9223372036854775807u64),
        top::<Field1>(ret.parts()[0].0).data == UniqueField::Valid(o),
        top::<Field1>(ret.parts()[0].0).args == Field::Valid(false),
        top::<Field1>(ret.parts()[0].0).is_ghost == Field::Valid(1u32),
        preset(top::<Field1>(ret.parts()[0].0).map.0),
        top::<Field1>(ret.parts()[0].0).unique == Field::Valid(false),
        top::<Field1>(ret.parts()[0].0).hk == Field::Valid(o),
        top::<Field1>(ret.parts()[0].0).status.0 == 0u32,
        ret.parts()[0].0.parts().len() == 1 && !ret.parts()[0].0.parts()[0].1,
        is_a::<Signals>(ret.parts()[0].0.parts()[0].0),
        top::<Signals>(ret.parts()[0].0.parts()[0].0).base.named() == "Signals"@,
        top::<Signals>(ret.parts()[0].0.parts()[0].0).base.fresh(),
        (top::<Signals>(ret.parts()[0].0.parts()[0].0).wrap matches Field::Valid(z) && z@ == s@),
        preset(top::<Signals>(ret.parts()[0].0.parts()[0].0).field.0),
        top::<Signals>(ret.parts()[0].0.parts()[0].0).name == Field::Valid(-4611686018427387904i64),
        preset(top::<Signals>(ret.parts()[0].0.parts()[0].0).tp_.0),
        top::<Signals>(ret.parts()[0].0.parts()[0].0).ab.0 == true,
        preset(top::<Signals>(ret.parts()[0].0.parts()[0].0).unique.0),
        top::<Signals>(ret.parts()[0].0.parts()[0].0).kind == Field::Valid(-1i32),
        (top::<Signals>(ret.parts()[0].0.parts()[0].0).map matches Field::Valid(z) && z@ == s@),
        top::<Signals>(ret.parts()[0].0.parts()[0].0).init.0 == (if p == 7 { p } else { 0u8 }),
        top::<Signals>(ret.parts()[0].0.parts()[0].0).status == UniqueField::Valid(6u16),
        preset(top::<Signals>(ret.parts()[0].0.parts()[0].0).void.0),
        top::<Signals>(ret.parts()[0].0.parts()[0].0).declare == UniqueField::Valid(2147483647i32),
        top::<Signals>(ret.parts()[0].0.parts()[0].0).process_mode.0 == (!(p == 3)),
        top::<Signals>(ret.parts()[0].0.parts()[0].0).ba == UniqueField::Valid(0u64),
        preset(top::<Signals>(ret.parts()[0].0.parts()[0].0).rid.0),
        top::<Signals>(ret.parts()[0].0.parts()[0].0).parent.0 == 1u32,
        top::<Signals>(ret.parts()[0].0.parts()[0].0).a.0 == 0u64,
        (top::<Signals>(ret.parts()[0].0.parts()[0].0).index matches Field::Valid(z) && z@ == Seq::<u8>::empty()),
        preset(top::<Signals>(ret.parts()[0].0.parts()[0].0).this.0),
        preset(top::<Signals>(ret.parts()[0].0.parts()[0].0).state.0),
        ret.parts()[0].0.parts()[0].0.parts().len() == 1 && !ret.parts()[0].0.parts()[0].0.parts()[0].1,
        is_a::<Field1>(ret.parts()[0].0.parts()[0].0.parts()[0].0),
        top::<Field1>(ret.parts()[0].0.parts()[0].0.parts()[0].0).base.named() == "9"@,
        top::<Field1>(ret.parts()[0].0.parts()[0].0.parts()[0].0).base.fresh(),
        idle(top::<Field1>(ret.parts()[0].0.parts()[0].0.parts()[0].0).scene),
        idle(top::<Field1>(ret.parts()[0].0.parts()[0].0.parts()[0].0).owned_state),
        top::<Field1>(ret.parts()[0].0.parts()[0].0.parts()[0].0).declare == UniqueField::Valid(true),
        top::<Field1>(ret.parts()[0].0.parts()[0].0.parts()[0].0).rid == Field::Valid(o),
        top::<Field1>(ret.parts()[0].0.parts()[0].0.parts()[0].0).kind == Field::Valid(9i8),
        (top::<Field1>(ret.parts()[0].0.parts()[0].0.parts()[0].0).ab matches Field::Valid(z) && z@ == s@),
        (top::<Field1>(ret.parts()[0].0.parts()[0].0.parts()[0].0).name matches Field::Valid(z) && z@ == s@),
        (top::<Field1>(ret.parts()[0].0.parts()[0].0.parts()[0].0).on_name matches UniqueField::Valid(z) && z@ == s@),
        top::<Field1>(ret.parts()[0].0.parts()[0].0.parts()[0].0).a.0@ == s@,
        top::<Field1>(ret.parts()[0].0.parts()[0].0.parts()[0].0).x_1 == Field::Valid(true),
        preset(top::<Field1>(ret.parts()[0].0.parts()[0].0.parts()[0].0).camelCase.0),
        (top::<Field1>(ret.parts()[0].0.parts()[0].0.parts()[0].0).value matches Field::Valid(z) && z@ == s@),
        preset(top::<Field1>(ret.parts()[0].0.parts()[0].0.parts()[0].0).take.0),
        top::<Field1>(ret.parts()[0].0.parts()[0].0.parts()[0].0).mode == Field::Valid(0u64),
        preset(top::<Field1>(ret.parts()[0].0.parts()[0].0.parts()[0].0)._init.0),
        preset(top::<Field1>(ret.parts()[0].0.parts()[0].0.parts()[0].0).base_.0),
        top::<Field1>(ret.parts()[0].0.parts()[0].0.parts()[0].0).export == Field::Valid(9223372036854775807u64),
        top::<Field1>(ret.parts()[0].0.parts()[0].0.parts()[0].0).data == UniqueField::Valid(o),
        top::<Field1>(ret.parts()[0].0.parts()[0].0.parts()[0].0).args == Field::Valid(false),
        top::<Field1>(ret.parts()[0].0.parts()[0].0.parts()[0].0).is_ghost == Field::Valid(9u32),
        preset(top::<Field1>(ret.parts()[0].0.parts()[0].0.parts()[0].0).map.0),
        top::<Field1>(ret.parts()[0].0.parts()[0].0.parts()[0].0).unique == Field::Valid(true),
        top::<Field1>(ret.parts()[0].0.parts()[0].0.parts()[0].0).hk == Field::Valid(o),
        top::<Field1>(ret.parts()[0].0.parts()[0].0.parts()[0].0).status.0 == 249633204u32,
        ret.parts()[0].0.parts()[0].0.parts()[0].0.parts().len() == 1 && !ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].1,
        is_a::<CameraNode>(ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0),
        top::<CameraNode>(ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0).base.named() == "q\"q"@,
        top::<CameraNode>(ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0).base.fresh(),
        (top::<CameraNode>(ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0).y matches Field::Valid(z) && z@ == Seq::<u8>::empty()),
        preset(top::<CameraNode>(ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0).node.0),
        preset(top::<CameraNode>(ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0).hk.0),
        preset(top::<CameraNode>(ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0).count_of.0),
        preset(top::<CameraNode>(ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0).tag_1.0),
        top::<CameraNode>(ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0).wrap == Field::Valid(0u8),
        top::<CameraNode>(ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0).is_ghost == Field::Valid(1i8),
        preset(top::<CameraNode>(ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0).ba.0),
        ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts().len() == 1 && !ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].1,
        is_a::<Scene>(ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0),
        top::<Scene>(ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0).base.named() == "9"@,
        top::<Scene>(ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0).base.fresh(),
        top::<Scene>(ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0).map.0@ == s@,
        ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts().len() == 1 && !ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].1,
        is_a::<TreeTop>(ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0),
        top::<TreeTop>(ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0).base.named() == "A name with spaces"@,
        top::<TreeTop>(ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0).base.fresh(),
        idle(top::<TreeTop>(ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0).x10),
        idle(top::<TreeTop>(ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0).count_of),
        top::<TreeTop>(ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0).void.0 == 0u32,
        top::<TreeTop>(ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0).init == Field::Valid(4294967295u32),
        top::<TreeTop>(ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0).this_name_is_longer_than_any_other_name_in_this_file == Field::Valid(o),
        top::<TreeTop>(ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0).a_ == Field::Valid(-4611686018427387904i64),
        preset(top::<TreeTop>(ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0).tag_2.0),
        preset(top::<TreeTop>(ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0).on_x.0),
        preset(top::<TreeTop>(ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0).ty.0),
        preset(top::<TreeTop>(ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0)._init.0),
        top::<TreeTop>(ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0).camelCase == UniqueField::Valid(6i64),
        top::<TreeTop>(ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0).r_type.0 == (if p > 3 { 1u8 } else { 2u8 }),
        preset(top::<TreeTop>(ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0).mode.0),
        top::<TreeTop>(ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0).bases.0 == 0u8,
        top::<TreeTop>(ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0).args == UniqueField::Valid(1i64),
        top::<TreeTop>(ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0).new == UniqueField::Valid(true),
        top::<TreeTop>(ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0).b.0 == 9i64,
        top::<TreeTop>(ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0).data == UniqueField::Valid(3513673736841092178i64),
        preset(top::<TreeTop>(ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0).a.0),
        top::<TreeTop>(ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0).rid == Field::Valid(0u64),
        ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts().len() == 1 && !ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].1,
        is_a::<AVeryLongClassNameThatGoesOnAndOnForever>(ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0),
        top::<AVeryLongClassNameThatGoesOnAndOnForever>(ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0).base.named() == "AVeryLongClassNameThatGoesOnAndOnForever"@,
        top::<AVeryLongClassNameThatGoesOnAndOnForever>(ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0).base.fresh(),
        preset(top::<AVeryLongClassNameThatGoesOnAndOnForever>(ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0).signal.0),
        top::<AVeryLongClassNameThatGoesOnAndOnForever>(ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0).bases == UniqueField::Valid(65372u16),
        top::<AVeryLongClassNameThatGoesOnAndOnForever>(ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0).ba.0 == 1u64,
        top::<AVeryLongClassNameThatGoesOnAndOnForever>(ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0).node.0 == o,
        preset(top::<AVeryLongClassNameThatGoesOnAndOnForever>(ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0).tag_11.0),
        top::<AVeryLongClassNameThatGoesOnAndOnForever>(ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0).tag_1.0 == 65535u16,
        top::<AVeryLongClassNameThatGoesOnAndOnForever>(ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0).is_ghost.0 == o,
        top::<AVeryLongClassNameThatGoesOnAndOnForever>(ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0).mode == Field::Valid(0u32),
        top::<AVeryLongClassNameThatGoesOnAndOnForever>(ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0).a_.0 == 4294967295u32,
        preset(top::<AVeryLongClassNameThatGoesOnAndOnForever>(ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0).aa.0),
        preset(top::<AVeryLongClassNameThatGoesOnAndOnForever>(ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0).depth.0),
        top::<AVeryLongClassNameThatGoesOnAndOnForever>(ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0).name == Field::Valid(false),
        ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts().len() == 1 && !ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].1,
        is_a::<CameraNode>(ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0),
        top::<CameraNode>(ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0).base.named() == "tab\t"@,
        top::<CameraNode>(ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0).base.fresh(),
        (top::<CameraNode>(ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0).y matches Field::Valid(z) && z@ == Seq::<u8>::empty()),
        top::<CameraNode>(ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0).node.0@ == s@,
        preset(top::<CameraNode>(ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0).hk.0),
        preset(top::<CameraNode>(ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0).count_of.0),
        preset(top::<CameraNode>(ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0).tag_1.0),
        top::<CameraNode>(ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0).wrap == Field::Valid((if p > 3 { 1u8 } else { 2u8 })),
        top::<CameraNode>(ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0).is_ghost == Field::Valid(-1i8),
        preset(top::<CameraNode>(ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0).ba.0),
        ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts().len() == 1 && !ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].1,
        is_a::<Scene>(ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0),
        top::<Scene>(ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0).base.named() == "007"@,
        top::<Scene>(ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0).base.fresh(),
        top::<Scene>(ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0).map.0@ == s@,
        ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts().len() == 1 && !ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].1,
        is_a::<X>(ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0),
        top::<X>(ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0).base.named() == "X"@,
        top::<X>(ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0).base.fresh(),
        idle(top::<X>(ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0).r_type),
        idle(top::<X>(ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0).rid),
        top::<X>(ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0)._init == Field::Valid(1u16),
        top::<X>(ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0).tag_11 == Field::Valid(5i64),
        top::<X>(ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0).field == Field::Valid(o),
        top::<X>(ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0).new == UniqueField::Valid(54753u16),
        top::<X>(ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0).a_.0@ == Seq::<u8>::empty(),
        top::<X>(ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0).x_1 == Field::Valid(-1i8),
        top::<X>(ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0).count_of == Field::Valid(127i8),
        preset(top::<X>(ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0).parent.0),
        top::<X>(ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0).args == Field::Valid(o),
        preset(top::<X>(ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0).tag_2.0),
        ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts().len() == 1 && !ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].1,
        is_a::<Kindly>(ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0),
        top::<Kindly>(ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0).base.named() == "a/b"@,
        top::<Kindly>(ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0).base.fresh(),
        preset(top::<Kindly>(ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0).field.0),
        top::<Kindly>(ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0)._low == Field::Valid(0u16),
        ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts().len() == 1 && !ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].1,
        is_a::<_Low>(ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0),
        top::<_Low>(ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0).base.named() == "_Low"@,
        top::<_Low>(ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0).base.fresh(),
        idle(top::<_Low>(ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0).data),
        idle(top::<_Low>(ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0).a_),
        idle(top::<_Low>(ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0).default),
        top::<_Low>(ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0).mode.0 == 0u32,
        preset(top::<_Low>(ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0).args.0),
        (top::<_Low>(ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0).x matches Field::Valid(z) && z@ == s@),
        top::<_Low>(ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0).bases.0 == 1i32,
        top::<_Low>(ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0).x1 == UniqueField::Valid(-2147483647i32),
        top::<_Low>(ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0).init == Field::Valid(true),
        (top::<_Low>(ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0).__deep matches UniqueField::Valid(z) && z@ == s@),
        top::<_Low>(ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0).tag_2 == Field::Valid(-4611686018427387904i64),
        top::<_Low>(ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0).camelCase.0 == 1u64,
        top::<_Low>(ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0).r_type.0 == -2147483647i32,
        top::<_Low>(ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0).tp_.0 == -2147483647i32,
        (top::<_Low>(ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0)._init matches UniqueField::Valid(z) && z@ == Seq::<u8>::empty()),
        top::<_Low>(ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0).children.0 == 0u64,
        top::<_Low>(ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0).name.0@ == s@,
        top::<_Low>(ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0).on_x == UniqueField::Valid(4611686018427387904i64),
        top::<_Low>(ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0).tag_1 == UniqueField::Valid(2u32),
        top::<_Low>(ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0).root == UniqueField::Valid(0u16),
        (top::<_Low>(ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0).rid matches UniqueField::Valid(z) && z@ == Seq::<u8>::empty()),
        top::<_Low>(ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0).tag_11.0@ == Seq::<u8>::empty(),
        preset(top::<_Low>(ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0).class.0),
        top::<_Low>(ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0).count_of == UniqueField::Valid(o),
        ret.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts()[0].0.parts().len() == 0,
//@ end
//@ fn @classes wide
    ensures
        is_a::<Nodes>(ret),
        top::<Nodes>(ret).base.named() == "x1"@,
        top::<Nodes>(ret).base.fresh(),
        top::<Nodes>(ret).class.0@ == s@,
        (top::<Nodes>(ret).process_mode matches Field::Valid(z) && z@ == s@),
        ret.parts().len() == 40 && !ret.parts()[0].1 && !ret.parts()[1].1 && !ret.parts()[2].1 && !ret.parts()[3].1 && !ret.parts()[4].1 && !ret.parts()[5].1 && !ret.parts()[6].1 && !ret.parts()[7].1 && !ret.parts()[8].1 && !ret.parts()[9].1 && !ret.parts()[10].1 && !ret.parts()[11].1 && !ret.parts()[12].1 && !ret.parts()[13].1 && !ret.parts()[14].1 && !ret.parts()[15].1 && !ret.parts()[16].1 && !ret.parts()[17].1 && !ret.parts()[18].1 && !ret.parts()[19].1 && !ret.parts()[20].1 && !ret.parts()[21].1 && !ret.parts()[22].1 && !ret.parts()[23].1 && !ret.parts()[24].1 && !ret.parts()[25].1 && !ret.parts()[26].1 && !ret.parts()[27].1 && !ret.parts()[28].1 && !ret.parts()[29].1 && !ret.parts()[30].1 && !ret.parts()[31].1 && !ret.parts()[32].1 && !ret.parts()[33].1 && !ret.parts()[34].1 && !ret.parts()[35].1 && !ret.parts()[36].1 && !ret.parts()[37].1 && !ret.parts()[38].1 && !ret.parts()[39].1,
        is_a::<Scene>(ret.parts()[0].0),
        top::<Scene>(ret.parts()[0].0).base.named() == "q\"q"@,
        top::<Scene>(ret.parts()[0].0).base.fresh(),
        top::<Scene>(ret.parts()[0].0).map.0@ == s@,
        ret.parts()[0].0.parts().len() == 0,
        same_scene(ret.parts()[1].0, *link),
        is_a::<Under_Score>(ret.parts()[2].0),
        top::<Under_Score>(ret.parts()[2].0).base.named() == "Under_Score"@,
        top::<Under_Score>(ret.parts()[2].0).base.fresh(),
        idle(top::<Under_Score>(ret.parts()[2].0).mode),
        top::<Under_Score>(ret.parts()[2].0).this.0 == p,
        preset(top::<Under_Score>(ret.parts()[2].0).y.0),
        (top::<Under_Score>(ret.parts()[2].0).ty matches Field::Valid(z) && z@ == s@),
        top::<Under_Score>(ret.parts()[2].0).value.0 == 0u16,
        ret.parts()[2].0.parts().len() == 0,
        is_a::<SubTree>(ret.parts()[3].0),
        top::<SubTree>(ret.parts()[3].0).base.named() == "a/b"@,
        top::<SubTree>(ret.parts()[3].0).base.fresh(),
        top::<SubTree>(ret.parts()[3].0).parent == UniqueField::Valid(-2147483647i32),
        top::<SubTree>(ret.parts()[3].0).root.0@ == s@,
        preset(top::<SubTree>(ret.parts()[3].0).wrap.0),
        top::<SubTree>(ret.parts()[3].0).camelCase.0@ == s@,
        preset(top::<SubTree>(ret.parts()[3].0).count_of.0),
        preset(top::<SubTree>(ret.parts()[3].0).new.0),
        top::<SubTree>(ret.parts()[3].0).tree.0 == 5i64,
        top::<SubTree>(ret.parts()[3].0).__deep.0@ == s@,
        ret.parts()[3].0.parts().len() == 0,
        is_a::<Node3D>(ret.parts()[4].0),
        top::<Node3D>(ret.parts()[4].0).base.named() == "Node3D"@,
        top::<Node3D>(ret.parts()[4].0).base.fresh(),
        top::<Node3D>(ret.parts()[4].0).tag_1 == UniqueField::Valid(false),
        preset(top::<Node3D>(ret.parts()[4].0).take.0),
        top::<Node3D>(ret.parts()[4].0).root == UniqueField::Valid((if p == 7 { p } else { 0u8 })),
        top::<Node3D>(ret.parts()[4].0).children.0 == (!(p == 3)),
        top::<Node3D>(ret.parts()[4].0).owner == Field::Valid(true),
        preset(top::<Node3D>(ret.parts()[4].0).x10.0),
        preset(top::<Node3D>(ret.parts()[4].0).parent.0),
        preset(top::<Node3D>(ret.parts()[4].0).mode.0),
        top::<Node3D>(ret.parts()[4].0).rid == Field::Valid(o),
        top::<Node3D>(ret.parts()[4].0)._low.0 == true,
        top::<Node3D>(ret.parts()[4].0).a == UniqueField::Valid(-1i64),
        preset(top::<Node3D>(ret.parts()[4].0).on_x.0),
        preset(top::<Node3D>(ret.parts()[4].0).wrap.0),
        preset(top::<Node3D>(ret.parts()[4].0).ty.0),
        top::<Node3D>(ret.parts()[4].0).unique == Field::Valid(65535u16),
        preset(top::<Node3D>(ret.parts()[4].0).declare.0),
        top::<Node3D>(ret.parts()[4].0).signal == UniqueField::Valid(o),
        top::<Node3D>(ret.parts()[4].0).owned_state.0 == 9u32,
        top::<Node3D>(ret.parts()[4].0).kind == Field::Valid(false),
        preset(top::<Node3D>(ret.parts()[4].0).name.0),
        ret.parts()[4].0.parts().len() == 0,
        is_a::<Base>(ret.parts()[5].0),
        top::<Base>(ret.parts()[5].0).base.named() == "Base"@,
        top::<Base>(ret.parts()[5].0).base.fresh(),
        idle(top::<Base>(ret.parts()[5].0).scene),
        idle(top::<Base>(ret.parts()[5].0).value),
        preset(top::<Base>(ret.parts()[5].0).status.0),
        top::<Base>(ret.parts()[5].0).ba == UniqueField::Valid(-127i8),
        preset(top::<Base>(ret.parts()[5].0).tp_.0),
        top::<Base>(ret.parts()[5].0).data.0 == 1u8,
        top::<Base>(ret.parts()[5].0).signal.0 == -1248872451i32,
        top::<Base>(ret.parts()[5].0).count_of.0@ == Seq::<u8>::empty(),
        top::<Base>(ret.parts()[5].0).process_mode == UniqueField::Valid(2147483647i32),
        top::<Base>(ret.parts()[5].0).mode.0 == 9223372036854775807u64,
        (top::<Base>(ret.parts()[5].0).args matches Field::Valid(z) && z@ == Seq::<u8>::empty()),
        top::<Base>(ret.parts()[5].0).field == UniqueField::Valid(5u32),
        (top::<Base>(ret.parts()[5].0).init matches Field::Valid(z) && z@ == Seq::<u8>::empty()),
        preset(top::<Base>(ret.parts()[5].0).declare.0),
        (top::<Base>(ret.parts()[5].0).x_1 matches UniqueField::Valid(z) && z@ == Seq::<u8>::empty()),
        preset(top::<Base>(ret.parts()[5].0).owner.0),
        top::<Base>(ret.parts()[5].0).map == Field::Valid(1u8),
        preset(top::<Base>(ret.parts()[5].0).wrap.0),
        top::<Base>(ret.parts()[5].0).tag_2 == Field::Valid((!(p == 3))),
        top::<Base>(ret.parts()[5].0).b.0 == 2147483647i32,
        ret.parts()[5].0.parts().len() == 0,
        is_a::<SubTree>(ret.parts()[6].0),
        top::<SubTree>(ret.parts()[6].0).base.named() == "SubTree"@,
        top::<SubTree>(ret.parts()[6].0).base.fresh(),
        top::<SubTree>(ret.parts()[6].0).parent == UniqueField::Valid(-2147483647i32),
        top::<SubTree>(ret.parts()[6].0).root.0@ == s@,
        preset(top::<SubTree>(ret.parts()[6].0).wrap.0),
        top::<SubTree>(ret.parts()[6].0).camelCase.0@ == s@,
        preset(top::<SubTree>(ret.parts()[6].0).count_of.0),
        preset(top::<SubTree>(ret.parts()[6].0).new.0),
        top::<SubTree>(ret.parts()[6].0).tree.0 == -1i64,
        preset(top::<SubTree>(ret.parts()[6].0).__deep.0),
        ret.parts()[6].0.parts().len() == 0,
        same_scene(ret.parts()[7].0, *link),
        is_a::<Base>(ret.parts()[8].0),
        top::<Base>(ret.parts()[8].0).base.named() == "A name with spaces"@,
        top::<Base>(ret.parts()[8].0).base.fresh(),
        idle(top::<Base>(ret.parts()[8].0).scene),
        idle(top::<Base>(ret.parts()[8].0).value),
        top::<Base>(ret.parts()[8].0).status.0 == 1625747149u32,
        top::<Base>(ret.parts()[8].0).ba == UniqueField::Valid(-127i8),
        preset(top::<Base>(ret.parts()[8].0).tp_.0),
        top::<Base>(ret.parts()[8].0).data.0 == 1u8,
        top::<Base>(ret.parts()[8].0).signal.0 == -1248872451i32,
        top::<Base>(ret.parts()[8].0).count_of.0@ == Seq::<u8>::empty(),
        top::<Base>(ret.parts()[8].0).process_mode == UniqueField::Valid(826497231i32),
        top::<Base>(ret.parts()[8].0).mode.0 == 9223372036854775807u64,
        (top::<Base>(ret.parts()[8].0).args matches Field::Valid(z) && z@ == Seq::<u8>::empty()),
        top::<Base>(ret.parts()[8].0).field == UniqueField::Valid(2183162804u32),
        (top::<Base>(ret.parts()[8].0).init matches Field::Valid(z) && z@ == Seq::<u8>::empty()),
        top::<Base>(ret.parts()[8].0).declare.0@ == s@,
        (top::<Base>(ret.parts()[8].0).x_1 matches UniqueField::Valid(z) && z@ == Seq::<u8>::empty()),
        preset(top::<Base>(ret.parts()[8].0).owner.0),
        top::<Base>(ret.parts()[8].0).map == Field::Valid(1u8),
        preset(top::<Base>(ret.parts()[8].0).wrap.0),
        top::<Base>(ret.parts()[8].0).tag_2 == Field::Valid(false),
        top::<Base>(ret.parts()[8].0).b.0 == 2147483647i32,
        ret.parts()[8].0.parts().len() == 0,
        is_a::<Under_Score>(ret.parts()[9].0),
        top::<Under_Score>(ret.parts()[9].0).base.named() == "_"@,
        top::<Under_Score>(ret.parts()[9].0).base.fresh(),
        idle(top::<Under_Score>(ret.parts()[9].0).mode),
        preset(top::<Under_Score>(ret.parts()[9].0).this.0),
        preset(top::<Under_Score>(ret.parts()[9].0).y.0),
        (top::<Under_Score>(ret.parts()[9].0).ty matches Field::Valid(z) && z@ == s@),
        preset(top::<Under_Score>(ret.parts()[9].0).value.0),
        ret.parts()[9].0.parts().len() == 0,
        is_a::<Node3D>(ret.parts()[10].0),
        top::<Node3D>(ret.parts()[10].0).base.named() == " pad "@,
        top::<Node3D>(ret.parts()[10].0).base.fresh(),
        top::<Node3D>(ret.parts()[10].0).tag_1 == UniqueField::Valid(false),
        preset(top::<Node3D>(ret.parts()[10].0).take.0),
        top::<Node3D>(ret.parts()[10].0).root == UniqueField::Valid(1u8),
        top::<Node3D>(ret.parts()[10].0).children.0 == (!(p == 3)),
        top::<Node3D>(ret.parts()[10].0).owner == Field::Valid((!(p == 3))),
        preset(top::<Node3D>(ret.parts()[10].0).x10.0),
        preset(top::<Node3D>(ret.parts()[10].0).parent.0),
        top::<Node3D>(ret.parts()[10].0).mode.0 == true,
        top::<Node3D>(ret.parts()[10].0).rid == Field::Valid(o),
        top::<Node3D>(ret.parts()[10].0)._low.0 == (p > 100),
        top::<Node3D>(ret.parts()[10].0).a == UniqueField::Valid(-1i64),
        preset(top::<Node3D>(ret.parts()[10].0).on_x.0),
        top::<Node3D>(ret.parts()[10].0).wrap.0 == 1u16,
        preset(top::<Node3D>(ret.parts()[10].0).ty.0),
        top::<Node3D>(ret.parts()[10].0).unique == Field::Valid(0u16),
        top::<Node3D>(ret.parts()[10].0).declare.0 == 106i8,
        top::<Node3D>(ret.parts()[10].0).signal == UniqueField::Valid(o),
        top::<Node3D>(ret.parts()[10].0).owned_state.0 == 3696680071u32,
        top::<Node3D>(ret.parts()[10].0).kind == Field::Valid((p > 100)),
        top::<Node3D>(ret.parts()[10].0).name.0@ == s@,
        ret.parts()[10].0.parts().len() == 0,
        is_a::<Nodes>(ret.parts()[11].0),
        top::<Nodes>(ret.parts()[11].0).base.named() == "q\"q"@,
        top::<Nodes>(ret.parts()[11].0).base.fresh(),
        preset(top::<Nodes>(ret.parts()[11].0).class.0),
        (top::<Nodes>(ret.parts()[11].0).process_mode matches Field::Valid(z) && z@ == s@),
        ret.parts()[11].0.parts().len() == 0,
        same_scene(ret.parts()[12].0, *link),
        is_a::<TreeTop>(ret.parts()[13].0),
        top::<TreeTop>(ret.parts()[13].0).base.named() == "_"@,
        top::<TreeTop>(ret.parts()[13].0).base.fresh(),
        idle(top::<TreeTop>(ret.parts()[13].0).x10),
        idle(top::<TreeTop>(ret.parts()[13].0).count_of),
        top::<TreeTop>(ret.parts()[13].0).void.0 == 0u32,
        top::<TreeTop>(ret.parts()[13].0).init == Field::Valid(1u32),
        top::<TreeTop>(ret.parts()[13].0).this_name_is_longer_than_any_other_name_in_this_file == Field::Valid(o),
        top::<TreeTop>(ret.parts()[13].0).a_ == Field::Valid(-2244639972906533606i64),
        preset(top::<TreeTop>(ret.parts()[13].0).tag_2.0),
        top::<TreeTop>(ret.parts()[13].0).on_x.0 == 5i32,
        preset(top::<TreeTop>(ret.parts()[13].0).ty.0),
        preset(top::<TreeTop>(ret.parts()[13].0)._init.0),
        top::<TreeTop>(ret.parts()[13].0).camelCase == UniqueField::Valid(-1i64),
        preset(top::<TreeTop>(ret.parts()[13].0).r_type.0),
        preset(top::<TreeTop>(ret.parts()[13].0).mode.0),
        top::<TreeTop>(ret.parts()[13].0).bases.0 == 0u8,
        top::<TreeTop>(ret.parts()[13].0).args == UniqueField::Valid(1i64),
        top::<TreeTop>(ret.parts()[13].0).new == UniqueField::Valid(true),
        preset(top::<TreeTop>(ret.parts()[13].0).b.0),
        top::<TreeTop>(ret.parts()[13].0).data == UniqueField::Valid(3513673736841092178i64),
        preset(top::<TreeTop>(ret.parts()[13].0).a.0),
        top::<TreeTop>(ret.parts()[13].0).rid == Field::Valid(9u64),
        ret.parts()[13].0.parts().len() == 0,
        is_a::<Node3D>(ret.parts()[14].0),
        top::<Node3D>(ret.parts()[14].0).base.named() == "007"@,
        top::<Node3D>(ret.parts()[14].0).base.fresh(),
        top::<Node3D>(ret.parts()[14].0).tag_1 == UniqueField::Valid(false),
        preset(top::<Node3D>(ret.parts()[14].0).take.0),
        top::<Node3D>(ret.parts()[14].0).root == UniqueField::Valid((if p > 3 { 1u8 } else { 2u8 })),
        top::<Node3D>(ret.parts()[14].0).children.0 == (p > 100),
        top::<Node3D>(ret.parts()[14].0).owner == Field::Valid((!(p == 3))),
        preset(top::<Node3D>(ret.parts()[14].0).x10.0),
        preset(top::<Node3D>(ret.parts()[14].0).parent.0),
        top::<Node3D>(ret.parts()[14].0).mode.0 == (!(p == 3)),
        top::<Node3D>(ret.parts()[14].0).rid == Field::Valid(o),
        top::<Node3D>(ret.parts()[14].0)._low.0 == true,
        top::<Node3D>(ret.parts()[14].0).a == UniqueField::Valid(-1i64),
        preset(top::<Node3D>(ret.parts()[14].0).on_x.0),
        preset(top::<Node3D>(ret.parts()[14].0).wrap.0),
        preset(top::<Node3D>(ret.parts()[14].0).ty.0),
        top::<Node3D>(ret.parts()[14].0).unique == Field::Valid(8u16),
        top::<Node3D>(ret.parts()[14].0).declare.0 == 127i8,
        top::<Node3D>(ret.parts()[14].0).signal == UniqueField::Valid(o),
        top::<Node3D>(ret.parts()[14].0).owned_state.0 == 3696680071u32,
        top::<Node3D>(ret.parts()[14].0).kind == Field::Valid((!(p == 3))),
        preset(top::<Node3D>(ret.parts()[14].0).name.0),
        ret.parts()[14].0.parts().len() == 0,
        is_a::<AVeryLongClassNameThatGoesOnAndOnForever>(ret.parts()[15].0),
        top::<AVeryLongClassNameThatGoesOnAndOnForever>(ret.parts()[15].0).base.named() == "_"@,
        top::<AVeryLongClassNameThatGoesOnAndOnForever>(ret.parts()[15].0).base.fresh(),
        preset(top::<AVeryLongClassNameThatGoesOnAndOnForever>(ret.parts()[15].0).signal.0),
        top::<AVeryLongClassNameThatGoesOnAndOnForever>(ret.parts()[15].0).bases == UniqueField::Valid(0u16),
        preset(top::<AVeryLongClassNameThatGoesOnAndOnForever>(ret.parts()[15].0).ba.0),
        top::<AVeryLongClassNameThatGoesOnAndOnForever>(ret.parts()[15].0).node.0 == o,
        preset(top::<AVeryLongClassNameThatGoesOnAndOnForever>(ret.parts()[15].0).tag_11.0),
        top::<AVeryLongClassNameThatGoesOnAndOnForever>(ret.parts()[15].0).tag_1.0 == 65535u16,
        top::<AVeryLongClassNameThatGoesOnAndOnForever>(ret.parts()[15].0).is_ghost.0 == o,
        top::<AVeryLongClassNameThatGoesOnAndOnForever>(ret.parts()[15].0).mode == Field::Valid(1463538017u32),
        top::<AVeryLongClassNameThatGoesOnAndOnForever>(ret.parts()[15].0).a_.0 == 3501023201u32,
        preset(top::<AVeryLongClassNameThatGoesOnAndOnForever>(ret.parts()[15].0).aa.0),
        preset(top::<AVeryLongClassNameThatGoesOnAndOnForever>(ret.parts()[15].0).depth.0),
        top::<AVeryLongClassNameThatGoesOnAndOnForever>(ret.parts()[15].0).name == Field::Valid(true),
        ret.parts()[15].0.parts().len() == 0,
        is_a::<X>(ret.parts()[16].0),
        top::<X>(ret.parts()[16].0).base.named() == "_"@,
        top::<X>(ret.parts()[16].0).base.fresh(),
        idle(top::<X>(ret.parts()[16].0).r_type),
        idle(top::<X>(ret.parts()[16].0).rid),
        top::<X>(ret.parts()[16].0)._init == Field::Valid(1u16),
        top::<X>(ret.parts()[16].0).tag_11 == Field::Valid(5i64),
        top::<X>(ret.parts()[16].0).field == Field::Valid(o),
        top::<X>(ret.parts()[16].0).new == UniqueField::Valid(65535u16),
        top::<X>(ret.parts()[16].0).a_.0@ == Seq::<u8>::empty(),
        top::<X>(ret.parts()[16].0).x_1 == Field::Valid(-1i8),
        top::<X>(ret.parts()[16].0).count_of == Field::Valid(127i8),
        preset(top::<X>(ret.parts()[16].0).parent.0),
        top::<X>(ret.parts()[16].0).args == Field::Valid(o),
        preset(top::<X>(ret.parts()[16].0).tag_2.0),
        ret.parts()[16].0.parts().len() == 0,
        is_a::<Base>(ret.parts()[17].0),
        top::<Base>(ret.parts()[17].0).base.named() == "007"@,
        top::<Base>(ret.parts()[17].0).base.fresh(),
        idle(top::<Base>(ret.parts()[17].0).scene),
        idle(top::<Base>(ret.parts()[17].0).value),
        preset(top::<Base>(ret.parts()[17].0).status.0),
        top::<Base>(ret.parts()[17].0).ba == UniqueField::Valid(-127i8),
        top::<Base>(ret.parts()[17].0).tp_.0 == false,
        top::<Base>(ret.parts()[17].0).data.0 == 1u8,
        top::<Base>(ret.parts()[17].0).signal.0 == -1248872451i32,
        top::<Base>(ret.parts()[17].0).count_of.0@ == Seq::<u8>::empty(),
        top::<Base>(ret.parts()[17].0).process_mode == UniqueField::Valid(826497231i32),
        top::<Base>(ret.parts()[17].0).mode.0 == 1u64,
        (top::<Base>(ret.parts()[17].0).args matches Field::Valid(z) && z@ == Seq::<u8>::empty()),
        top::<Base>(ret.parts()[17].0).field == UniqueField::Valid(1u32),
        (top::<Base>(ret.parts()[17].0).init matches Field::Valid(z) && z@ == Seq::<u8>::empty()),
        preset(top::<Base>(ret.parts()[17].0).declare.0),
        (top::<Base>(ret.parts()[17].0).x_1 matches UniqueField::Valid(z) && z@ == Seq::<u8>::empty()),
        top::<Base>(ret.parts()[17].0).owner.0 == 0u32,
        top::<Base>(ret.parts()[17].0).map == Field::Valid(1u8),
        preset(top::<Base>(ret.parts()[17].0).wrap.0),
        top::<Base>(ret.parts()[17].0).tag_2 == Field::Valid(true),
        top::<Base>(ret.parts()[17].0).b.0 == 2147483647i32,
        ret.parts()[17].0.parts().len() == 0,
        is_a::<Base>(ret.parts()[18].0),
        top::<Base>(ret.parts()[18].0).base.named() == "Base"@,
        top::<Base>(ret.parts()[18].0).base.fresh(),
        idle(top::<Base>(ret.parts()[18].0).scene),
        idle(top::<Base>(ret.parts()[18].0).value),
        preset(top::<Base>(ret.parts()[18].0).status.0),
        top::<Base>(ret.parts()[18].0).ba == UniqueField::Valid(-127i8),
        preset(top::<Base>(ret.parts()[18].0).tp_.0),
        top::<Base>(ret.parts()[18].0).data.0 == 1u8,
        top::<Base>(ret.parts()[18].0).signal.0 == -1248872451i32,
        top::<Base>(ret.parts()[18].0).count_of.0@ == Seq::<u8>::empty(),
        top::<Base>(ret.parts()[18].0).process_mode == UniqueField::Valid(5i32),
        top::<Base>(ret.parts()[18].0).mode.0 == 0u64,
        (top::<Base>(ret.parts()[18].0).args matches Field::Valid(z) && z@ == Seq::<u8>::empty()),
        top::<Base>(ret.parts()[18].0).field == UniqueField::Valid(0u32),
        (top::<Base>(ret.parts()[18].0).init matches Field::Valid(z) && z@ == Seq::<u8>::empty()),
        top::<Base>(ret.parts()[18].0).declare.0@ == s@,
        (top::<Base>(ret.parts()[18].0).x_1 matches UniqueField::Valid(z) && z@ == Seq::<u8>::empty()),
        preset(top::<Base>(ret.parts()[18].0).owner.0),
        top::<Base>(ret.parts()[18].0).map == Field::Valid(1u8),
        preset(top::<Base>(ret.parts()[18].0).wrap.0),
        top::<Base>(ret.parts()[18].0).tag_2 == Field::Valid(false),
        top::<Base>(ret.parts()[18].0).b.0 == 2147483647i32,
        ret.parts()[18].0.parts().len() == 0,
        same_scene(ret.parts()[19].0, *link),
        is_a::<Base>(ret.parts()[20].0),
        top::<Base>(ret.parts()[20].0).base.named() == "name"@,
        top::<Base>(ret.parts()[20].0).base.fresh(),
        idle(top::<Base>(ret.parts()[20].0).scene),
        idle(top::<Base>(ret.parts()[20].0).value),
        preset(top::<Base>(ret.parts()[20].0).status.0),
        top::<Base>(ret.parts()[20].0).ba == UniqueField::Valid(-127i8),
        top::<Base>(ret.parts()[20].0).tp_.0 == (p > 100),
        top::<Base>(ret.parts()[20].0).data.0 == 1u8,
        top::<Base>(ret.parts()[20].0).signal.0 == -1248872451i32,
        top::<Base>(ret.parts()[20].0).count_of.0@ == Seq::<u8>::empty(),
        top::<Base>(ret.parts()[20].0).process_mode == UniqueField::Valid(826497231i32),
        top::<Base>(ret.parts()[20].0).mode.0 == 1u64,
        (top::<Base>(ret.parts()[20].0).args matches Field::Valid(z) && z@ == Seq::<u8>::empty()),
        top::<Base>(ret.parts()[20].0).field == UniqueField::Valid(1665403737u32),
        (top::<Base>(ret.parts()[20].0).init matches Field::Valid(z) && z@ == Seq::<u8>::empty()),
        preset(top::<Base>(ret.parts()[20].0).declare.0),
        (top::<Base>(ret.parts()[20].0).x_1 matches UniqueField::Valid(z) && z@ == Seq::<u8>::empty()),
        preset(top::<Base>(ret.parts()[20].0).owner.0),
        top::<Base>(ret.parts()[20].0).map == Field::Valid(1u8),
        preset(top::<Base>(ret.parts()[20].0).wrap.0),
        top::<Base>(ret.parts()[20].0).tag_2 == Field::Valid(false),
        top::<Base>(ret.parts()[20].0).b.0 == 2147483647i32,
        ret.parts()[20].0.parts().len() == 0,
        is_a::<CameraNode>(ret.parts()[21].0),
        top::<CameraNode>(ret.parts()[21].0).base.named() == ".."@,
        top::<CameraNode>(ret.parts()[21].0).base.fresh(),
        (top::<CameraNode>(ret.parts()[21].0).y matches Field::Valid(z) && z@ == Seq::<u8>::empty()),
        preset(top::<CameraNode>(ret.parts()[21].0).node.0),
        preset(top::<CameraNode>(ret.parts()[21].0).hk.0),
        preset(top::<CameraNode>(ret.parts()[21].0).count_of.0),
        preset(top::<CameraNode>(ret.parts()[21].0).tag_1.0),
        top::<CameraNode>(ret.parts()[21].0).wrap == Field::Valid(0u8),
        top::<CameraNode>(ret.parts()[21].0).is_ghost == Field::Valid(127i8),
        top::<CameraNode>(ret.parts()[21].0).ba.0 == (if p > 3 { 1u8 } else { 2u8 }),
        ret.parts()[21].0.parts().len() == 0,
        same_scene(ret.parts()[22].0, *link),
        is_a::<SCREAM>(ret.parts()[23].0),
        top::<SCREAM>(ret.parts()[23].0).base.named() == "a name of forty characters and a few more x"@,
        top::<SCREAM>(ret.parts()[23].0).base.fresh(),
        idle(top::<SCREAM>(ret.parts()[23].0).aa),
        preset(top::<SCREAM>(ret.parts()[23].0).unique.0),
        preset(top::<SCREAM>(ret.parts()[23].0).tp_.0),
        top::<SCREAM>(ret.parts()[23].0).camelCase == Field::Valid((!(p == 3))),
        preset(top::<SCREAM>(ret.parts()[23].0)._init.0),
        top::<SCREAM>(ret.parts()[23].0).children.0 == 3455322656u32,
        top::<SCREAM>(ret.parts()[23].0).a == Field::Valid(o),
        top::<SCREAM>(ret.parts()[23].0).x10 == Field::Valid(-4611686018427387904i64),
        top::<SCREAM>(ret.parts()[23].0).wrap.0 == 0u32,
        top::<SCREAM>(ret.parts()[23].0).x1.0 == (p > 100),
        preset(top::<SCREAM>(ret.parts()[23].0).r_type.0),
        top::<SCREAM>(ret.parts()[23].0).is_ghost.0@ == s@,
        ret.parts()[23].0.parts().len() == 0,
        same_scene(ret.parts()[24].0, *link),
        is_a::<Nodes>(ret.parts()[25].0),
        top::<Nodes>(ret.parts()[25].0).base.named() == ".."@,
        top::<Nodes>(ret.parts()[25].0).base.fresh(),
        top::<Nodes>(ret.parts()[25].0).class.0@ == s@,
        (top::<Nodes>(ret.parts()[25].0).process_mode matches Field::Valid(z) && z@ == s@),
        ret.parts()[25].0.parts().len() == 0,
        is_a::<Base>(ret.parts()[26].0),
        top::<Base>(ret.parts()[26].0).base.named() == "Base"@,
        top::<Base>(ret.parts()[26].0).base.fresh(),
        idle(top::<Base>(ret.parts()[26].0).scene),
        idle(top::<Base>(ret.parts()[26].0).value),
        preset(top::<Base>(ret.parts()[26].0).status.0),
        top::<Base>(ret.parts()[26].0).ba == UniqueField::Valid(-127i8),
        preset(top::<Base>(ret.parts()[26].0).tp_.0),
        top::<Base>(ret.parts()[26].0).data.0 == 1u8,
        top::<Base>(ret.parts()[26].0).signal.0 == -1248872451i32,
        top::<Base>(ret.parts()[26].0).count_of.0@ == Seq::<u8>::empty(),
        top::<Base>(ret.parts()[26].0).process_mode == UniqueField::Valid(826497231i32),
        top::<Base>(ret.parts()[26].0).mode.0 == 3u64,
        (top::<Base>(ret.parts()[26].0).args matches Field::Valid(z) && z@ == Seq::<u8>::empty()),
        top::<Base>(ret.parts()[26].0).field == UniqueField::Valid(1u32),
        (top::<Base>(ret.parts()[26].0).init matches Field::Valid(z) && z@ == Seq::<u8>::empty()),
        preset(top::<Base>(ret.parts()[26].0).declare.0),
        (top::<Base>(ret.parts()[26].0).x_1 matches UniqueField::Valid(z) && z@ == Seq::<u8>::empty()),
        preset(top::<Base>(ret.parts()[26].0).owner.0),
        top::<Base>(ret.parts()[26].0).map == Field::Valid(1u8),
        preset(top::<Base>(ret.parts()[26].0).wrap.0),
        top::<Base>(ret.parts()[26].0).tag_2 == Field::Valid((!(p == 3))),
        top::<Base>(ret.parts()[26].0).b.0 == 2147483647i32,
        ret.parts()[26].0.parts().len() == 0,
        is_a::<Signals>(ret.parts()[27].0),
        top::<Signals>(ret.parts()[27].0).base.named() == "q\"q"@,
        top::<Signals>(ret.parts()[27].0).base.fresh(),
        (top::<Signals>(ret.parts()[27].0).wrap matches Field::Valid(z) && z@ == s@),
        preset(top::<Signals>(ret.parts()[27].0).field.0),
        top::<Signals>(ret.parts()[27].0).name == Field::Valid(1i64),
        preset(top::<Signals>(ret.parts()[27].0).tp_.0),
        preset(top::<Signals>(ret.parts()[27].0).ab.0),
        preset(top::<Signals>(ret.parts()[27].0).unique.0),
        top::<Signals>(ret.parts()[27].0).kind == Field::Valid(-1i32),
        (top::<Signals>(ret.parts()[27].0).map matches Field::Valid(z) && z@ == s@),
        top::<Signals>(ret.parts()[27].0).init.0 == p,
        top::<Signals>(ret.parts()[27].0).status == UniqueField::Valid(1u16),
        preset(top::<Signals>(ret.parts()[27].0).void.0),
        top::<Signals>(ret.parts()[27].0).declare == UniqueField::Valid(5i32),
        top::<Signals>(ret.parts()[27].0).process_mode.0 == false,
        top::<Signals>(ret.parts()[27].0).ba == UniqueField::Valid(0u64),
        top::<Signals>(ret.parts()[27].0).rid.0 == 1u64,
        top::<Signals>(ret.parts()[27].0).parent.0 == 0u32,
        top::<Signals>(ret.parts()[27].0).a.0 == 0u64,
        (top::<Signals>(ret.parts()[27].0).index matches Field::Valid(z) && z@ == Seq::<u8>::empty()),
        preset(top::<Signals>(ret.parts()[27].0).this.0),
        preset(top::<Signals>(ret.parts()[27].0).state.0),
        ret.parts()[27].0.parts().len() == 0,
        is_a::<PlayerNode>(ret.parts()[28].0),
        top::<PlayerNode>(ret.parts()[28].0).base.named() == "tab\t"@,
        top::<PlayerNode>(ret.parts()[28].0).base.fresh(),
        top::<PlayerNode>(ret.parts()[28].0).kind == UniqueField::Valid((p > 100)),
        ret.parts()[28].0.parts().len() == 0,
        is_a::<Node3D>(ret.parts()[29].0),
        top::<Node3D>(ret.parts()[29].0).base.named() == "q\"q"@,
        top::<Node3D>(ret.parts()[29].0).base.fresh(),
        top::<Node3D>(ret.parts()[29].0).tag_1 == UniqueField::Valid(false),
        preset(top::<Node3D>(ret.parts()[29].0).take.0),
        top::<Node3D>(ret.parts()[29].0).root == UniqueField::Valid((if p > 3 { 1u8 } else { 2u8 })),
        top::<Node3D>(ret.parts()[29].0).children.0 == (p > 100),
        top::<Node3D>(ret.parts()[29].0).owner == Field::Valid(true),
        preset(top::<Node3D>(ret.parts()[29].0).x10.0),
        preset(top::<Node3D>(ret.parts()[29].0).parent.0),
        preset(top::<Node3D>(ret.parts()[29].0).mode.0),
        top::<Node3D>(ret.parts()[29].0).rid == Field::Valid(o),
        top::<Node3D>(ret.parts()[29].0)._low.0 == false,
        top::<Node3D>(ret.parts()[29].0).a == UniqueField::Valid(-1i64),
        preset(top::<Node3D>(ret.parts()[29].0).on_x.0),
        preset(top::<Node3D>(ret.parts()[29].0).wrap.0),
        preset(top::<Node3D>(ret.parts()[29].0).ty.0),
        top::<Node3D>(ret.parts()[29].0).unique == Field::Valid(0u16),
        preset(top::<Node3D>(ret.parts()[29].0).declare.0),
        top::<Node3D>(ret.parts()[29].0).signal == UniqueField::Valid(o),
        top::<Node3D>(ret.parts()[29].0).owned_state.0 == 3696680071u32,
        top::<Node3D>(ret.parts()[29].0).kind == Field::Valid((p > 100)),
        top::<Node3D>(ret.parts()[29].0).name.0@ == s@,
        ret.parts()[29].0.parts().len() == 0,
        same_scene(ret.parts()[30].0, *link),
        is_a::<TreeTop>(ret.parts()[31].0),
        top::<TreeTop>(ret.parts()[31].0).base.named() == "x1"@,
        top::<TreeTop>(ret.parts()[31].0).base.fresh(),
        idle(top::<TreeTop>(ret.parts()[31].0).x10),
        idle(top::<TreeTop>(ret.parts()[31].0).count_of),
        top::<TreeTop>(ret.parts()[31].0).void.0 == 0u32,
        top::<TreeTop>(ret.parts()[31].0).init == Field::Valid(0u32),
        top::<TreeTop>(ret.parts()[31].0).this_name_is_longer_than_any_other_name_in_this_file == Field::Valid(o),
        top::<TreeTop>(ret.parts()[31].0).a_ == Field::Valid(-2412004082193732763i64),
        preset(top::<TreeTop>(ret.parts()[31].0).tag_2.0),
        top::<TreeTop>(ret.parts()[31].0).on_x.0 == -296082555i32,
        preset(top::<TreeTop>(ret.parts()[31].0).ty.0),
        preset(top::<TreeTop>(ret.parts()[31].0)._init.0),
        top::<TreeTop>(ret.parts()[31].0).camelCase == UniqueField::Valid(-1i64),
        preset(top::<TreeTop>(ret.parts()[31].0).r_type.0),
        preset(top::<TreeTop>(ret.parts()[31].0).mode.0),
        top::<TreeTop>(ret.parts()[31].0).bases.0 == 0u8,
        top::<TreeTop>(ret.parts()[31].0).args == UniqueField::Valid(1i64),
        top::<TreeTop>(ret.parts()[31].0).new == UniqueField::Valid(true),
        preset(top::<TreeTop>(ret.parts()[31].0).b.0),
        top::<TreeTop>(ret.parts()[31].0).data == UniqueField::Valid(1i64),
        preset(top::<TreeTop>(ret.parts()[31].0).a.0),
        top::<TreeTop>(ret.parts()[31].0).rid == Field::Valid(9u64),
        ret.parts()[31].0.parts().len() == 0,
        is_a::<_Low>(ret.parts()[32].0),
        top::<_Low>(ret.parts()[32].0).base.named() == ""@,
        top::<_Low>(ret.parts()[32].0).base.fresh(),
        idle(top::<_Low>(ret.parts()[32].0).data),
        idle(top::<_Low>(ret.parts()[32].0).a_),
        idle(top::<_Low>(ret.parts()[32].0).default),
        top::<_Low>(ret.parts()[32].0).mode.0 == 0u32,
        preset(top::<_Low>(ret.parts()[32].0).args.0),
        (top::<_Low>(ret.parts()[32].0).x matches Field::Valid(z) && z@ == s@),
        top::<_Low>(ret.parts()[32].0).bases.0 == 2147483647i32,
        top::<_Low>(ret.parts()[32].0).x1 == UniqueField::Valid(1i32),
        top::<_Low>(ret.parts()[32].0).init == Field::Valid((!(p == 3))),
        (top::<_Low>(ret.parts()[32].0).__deep matches UniqueField::Valid(z) && z@ == s@),
        top::<_Low>(ret.parts()[32].0).tag_2 == Field::Valid(-4611686018427387904i64),
        top::<_Low>(ret.parts()[32].0).camelCase.0 == 6u64,
        top::<_Low>(ret.parts()[32].0).r_type.0 == -1i32,
        top::<_Low>(ret.parts()[32].0).tp_.0 == -2147483647i32,
        (top::<_Low>(ret.parts()[32].0)._init matches UniqueField::Valid(z) && z@ == Seq::<u8>::empty()),
        top::<_Low>(ret.parts()[32].0).children.0 == 0u64,
        top::<_Low>(ret.parts()[32].0).name.0@ == s@,
        top::<_Low>(ret.parts()[32].0).on_x == UniqueField::Valid(-4611686018427387904i64),
        top::<_Low>(ret.parts()[32].0).tag_1 == UniqueField::Valid(2u32),
        top::<_Low>(ret.parts()[32].0).root == UniqueField::Valid(65535u16),
        (top::<_Low>(ret.parts()[32].0).rid matches UniqueField::Valid(z) && z@ == Seq::<u8>::empty()),
        top::<_Low>(ret.parts()[32].0).tag_11.0@ == Seq::<u8>::empty(),
        preset(top::<_Low>(ret.parts()[32].0).class.0),
        top::<_Low>(ret.parts()[32].0).count_of == UniqueField::Valid(o),
        ret.parts()[32].0.parts().len() == 0,
        is_a::<Kindly>(ret.parts()[33].0),
        top::<Kindly>(ret.parts()[33].0).base.named() == "A name with spaces"@,
        top::<Kindly>(ret.parts()[33].0).base.fresh(),
        preset(top::<Kindly>(ret.parts()[33].0).field.0),
        top::<Kindly>(ret.parts()[33].0)._low == Field::Valid(0u16),
        ret.parts()[33].0.parts().len() == 0,
        is_a::<Scene>(ret.parts()[34].0),
        top::<Scene>(ret.parts()[34].0).base.named() == "a"@,
        top::<Scene>(ret.parts()[34].0).base.fresh(),
        top::<Scene>(ret.parts()[34].0).map.0@ == s@,
        ret.parts()[34].0.parts().len() == 0,
        same_scene(ret.parts()[35].0, *link),
        is_a::<Kindly>(ret.parts()[36].0),
        top::<Kindly>(ret.parts()[36].0).base.named() == "/"@,
        top::<Kindly>(ret.parts()[36].0).base.fresh(),
        preset(top::<Kindly>(ret.parts()[36].0).field.0),
        top::<Kindly>(ret.parts()[36].0)._low == Field::Valid(0u16),
        ret.parts()[36].0.parts().len() == 0,
        is_a::<SubTree>(ret.parts()[37].0),
        top::<SubTree>(ret.parts()[37].0).base.named() == "q\"q"@,
        top::<SubTree>(ret.parts()[37].0).base.fresh(),
        top::<SubTree>(ret.parts()[37].0).parent == UniqueField::Valid(-2147483647i32),
        top::<SubTree>(ret.parts()[37].0).root.0@ == s@,
        preset(top::<SubTree>(ret.parts()[37].0).wrap.0),
        top::<SubTree>(ret.parts()[37].0).camelCase.0@ == s@,
        preset(top::<SubTree>(ret.parts()[37].0).count_of.0),
        preset(top::<SubTree>(ret.parts()[37].0).new.0),
        top::<SubTree>(ret.parts()[37].0).tree.0 == -1i64,
        top::<SubTree>(ret.parts()[37].0).__deep.0@ == s@,
        ret.parts()[37].0.parts().len() == 0,
        same_scene(ret.parts()[38].0, *link),
        is_a::<Kindly>(ret.parts()[39].0),
        top::<Kindly>(ret.parts()[39].0).base.named() == "Kindly"@,
        top::<Kindly>(ret.parts()[39].0).base.fresh(),
        preset(top::<Kindly>(ret.parts()[39].0).field.0),
        top::<Kindly>(ret.parts()[39].0)._low == Field::Valid(0u16),
        ret.parts()[39].0.parts().len() == 0,
//@ end
} // verus!
fn main() {}
