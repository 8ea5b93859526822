#!/usr/bin/env python3
"""Writes contracts/classes.vc: contracts on what class! and scene! make of the sample declarations.

The declarations are listed here once more, as (kind, name, type, value in new); the contracts below
say what the documentation of the macros says about members of each kind."""
# kind: s signal, f let, e export let, x export default let, d default let, u unique let
CLASSES = dict(
    All=dict(params=['tag_', 'plain_'], fields=[
        ('s', 'on_tick', '()', None), ('s', 'on_text', 'String', None), ('s', 'on_hit', '(u8, u16, i32)', None),
        ('f', 'plain', 'u8', 'plain_'), ('f', 'preset', 'i32', '5'), ('e', 'tag', 'String', 'tag_'), ('e', 'count', 'u32', '9'),
        ('x', 'level', 'u8', None), ('d', 'score', 'u16', None), ('d', 'list', 'Vec<u8>', None), ('x', 'maybe', 'Option<i8>', None),
        ('u', 'once', 'u64', '7'), ('u', 'spare', 'i8', '-3')]),
    Bare=dict(params=[], fields=[]),
    Preset=dict(params=[], fields=[('e', 'low', 'i64', '-7'), ('f', 'high', 'u64', '(1u64 << 40)'), ('d', 'flag', 'bool', None), ('x', 'word', 'String', None)]),
    Private=dict(params=['a', 'b'], fields=[('e', 'a', 'u8', 'a'), ('f', 'b', 'u8', 'b')]),
    Ear=dict(params=[], fields=[('s', 'on_word', 'u8', None)]),
)
import os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
import decl
CLASSES.update(decl.CLS)
WRAP = dict(s='Signal', f='Field', e='ExportableField', x='ExportableField', d='DefaultField', u='UniqueField')
F = 'structs/node_field.rs'
o = '''// Written by tools/mkclasses.py.
//@ include prelude.vc
//@ include strings.vc
//@ subst Self::Target => NodeBase
//@ subst Self :: Target => NodeBase

// What the generated code is made of. Their own contracts are proved in the groups fields, export,
// signals and heap; here they are assumed in the form in which generated code needs them.
/// Copies, as the Clone implementations make them.
pub trait Copied: Sized { spec fn copied(a: Self, b: Self) -> bool; fn clone(&self) -> (ret: Self) ensures Self::copied(*self, ret); }
/// An empty value.
pub trait Voidable: Sized { spec fn empty(a: Self) -> bool; fn void() -> (ret: Self) ensures Self::empty(ret); }
/// A value of the saved text.
#[verifier::external_body] pub struct Value { p: usize }
pub trait Exportable: Sized {
    spec fn ghost() -> bool;
    spec fn dec(v: Value) -> Option<Self>;
    /// Does not look at self (its documentation): the answer of the type.
    fn is_ghost_export_type() -> (ret: bool) ensures ret == Self::ghost();
    fn is_ghost_export(&self) -> (ret: bool) ensures ret == Self::ghost();
    fn from_value(value: Value) -> (ret: Option<Self>) requires !Self::ghost(), ensures ret == Self::dec(value);
}
/// What a value of this type is read from.
pub uninterp spec fn read<T>(v: Value) -> Option<T>;
/// x is what the Default of its type gives.
pub open spec fn preset<T: Default>(x: T) -> bool { T::default.ensures((), x) }
'''
def fn(f, key, spec, opts=''):
    global o
    o += f"//@ fn {f} {key}{' | ' + opts if opts else ''}\n" + ''.join('    ' + s + '\n' for s in spec) + '//@ end\n'
LEAVES = ['u8', 'u16', 'u32', 'u64', 'i8', 'i32', 'i64', 'bool', 'String', 'Vec<u8>', 'Option<i8>']
for t in LEAVES:
    eq = 'a@ == b@' if t in ('String', 'Vec<u8>') else 'a == b'
    o += f'impl Copied for {t} {{ open spec fn copied(a: Self, b: Self) -> bool {{ {eq} }} #[verifier::external_body] fn clone(&self) -> (ret: Self) {{ Clone::clone(self) }} }}\n'
    o += f'impl Exportable for {t} {{ open spec fn ghost() -> bool {{ false }} open spec fn dec(v: Value) -> Option<Self> {{ read(v) }} #[verifier::external_body] fn is_ghost_export_type() -> bool {{ false }} #[verifier::external_body] fn is_ghost_export(&self) -> bool {{ false }} #[verifier::external_body] fn from_value(value: Value) -> (ret: Option<Self>) {{ unimplemented!() }} }}\n'
o += ''.join(f'//@ type {F} {w}\n' for w in ('Field', 'UniqueField', 'ExportableField', 'DefaultField'))
for w in ('Field', 'UniqueField'):
    o += f'impl<T> {w}<T> {{\n'
    fn(F, f'{w}::new', [f'ensures ret == {w}::Valid(item),'])
    o += '}\n'
o += 'impl<T: Exportable> ExportableField<T> {\n'
fn(F, 'ExportableField::new', ['ensures ret.0 == item,'])
o += '}\nimpl<T: Default> DefaultField<T> {\n'
fn(F, 'DefaultField::new', ['ensures ret.0 == item,'])
o += '}\n'
# Copies
o += '''impl<T: Copied> Copied for Field<T> {
    open spec fn copied(a: Self, b: Self) -> bool { match a { Field::Valid(x) => b matches Field::Valid(y) && T::copied(x, y), Field::Void => b is Void } }
'''
fn(F, '<Clone for Field<T>>::clone', [], 'priv')
o += '''}
impl<T> Copied for UniqueField<T> {
    open spec fn copied(a: Self, b: Self) -> bool { b is Void }
'''
fn(F, '<Clone for UniqueField<T>>::clone', [], 'priv')
o += '}\n'
for w, b in (('ExportableField', 'Copied + Exportable'), ('DefaultField', 'Copied + Default')):
    o += f'impl<T: {b}> Copied for {w}<T> {{\n    open spec fn copied(a: Self, b: Self) -> bool {{ T::copied(a.0, b.0) }}\n    /// Derived in the code.\n    #[verifier::external_body]\n    fn clone(&self) -> Self {{ unimplemented!() }}\n}}\n'
# Saving
GHOST = [('Field', ''), ('UniqueField', ''), ('DefaultField', ': Default')]
for w, b in GHOST:
    o += f'impl<T{b}> Exportable for {w}<T> {{\n    open spec fn ghost() -> bool {{ true }}\n    open spec fn dec(v: Value) -> Option<Self> {{ None }}\n    /// Asks is_ghost_export.\n    #[verifier::external_body] fn is_ghost_export_type() -> bool {{ true }}\n'
    fn(F, f'<Exportable for {w}<T>>::is_ghost_export', [], 'priv')
    fn(F, f'<Exportable for {w}<T>>::from_value', [], 'priv subst=toml_edit::Value=>Value')
    o += '}\n'
o += '''impl<T: Exportable> Exportable for ExportableField<T> {
    open spec fn ghost() -> bool { false }
    open spec fn dec(v: Value) -> Option<Self> { match T::dec(v) { Some(x) => Some(ExportableField(x)), None => None } }
    #[verifier::external_body] fn is_ghost_export_type() -> bool { false }
    #[verifier::external_body] fn is_ghost_export(&self) -> bool { false }
    /// Proved in group export.
    #[verifier::external_body] fn from_value(value: Value) -> (ret: Option<Self>) { unimplemented!() }
}
'''
for w, b in (('Field', ''), ('UniqueField', '')):
    o += f'impl<T> Voidable for {w}<T> {{\n    open spec fn empty(a: Self) -> bool {{ a is Void }}\n'
    fn(F, f'<Voidable for {w}<T>>::void', [], 'priv')
    o += '}\n'
for w, b in (('ExportableField', 'Exportable + Default'), ('DefaultField', 'Default')):
    o += f'impl<T: {b}> {w}<T> {{\n    /// Derived in the code.\n    #[verifier::external_body]\n    pub fn default() -> (ret: Self) ensures preset(ret.0), {{ {w}(T::default()) }}\n}}\nimpl<T: {b}> Voidable for {w}<T> {{\n    open spec fn empty(a: Self) -> bool {{ preset(a.0) }}\n'
    fn(F, f'<Voidable for {w}<T>>::void', [], 'priv')
    o += '}\n'
o += '''#[verifier::external_body] #[verifier::reject_recursive_types(A)] pub struct Signal<A> { p: Vec<A> }
/// A signal that nothing is connected to.
pub uninterp spec fn idle<A>(s: Signal<A>) -> bool;
impl<A> Signal<A> { /** Proved in group signals. */ #[verifier::external_body] pub fn new() -> (ret: Self) ensures idle(ret) { unimplemented!() } }
'''
S_ = 'structs/signals.rs'
o += 'impl<T> Copied for Signal<T> {\n    open spec fn copied(a: Self, b: Self) -> bool { idle(b) }\n'
fn(S_, '<Clone for Signal<T>>::clone', [], 'priv')
o += '}\nimpl<T> Voidable for Signal<T> {\n    open spec fn empty(a: Self) -> bool { idle(a) }\n'
fn(S_, '<Voidable for Signal<T>>::void', [], 'priv')
o += '}\nimpl<T> Exportable for Signal<T> {\n    open spec fn ghost() -> bool { true }\n    open spec fn dec(v: Value) -> Option<Self> { None }\n    /// Asks is_ghost_export.\n    #[verifier::external_body] fn is_ghost_export_type() -> bool { true }\n'
fn(S_, '<Exportable for Signal<T>>::is_ghost_export', [], 'priv')
fn(S_, '<Exportable for Signal<T>>::from_value', [], 'priv subst=toml::Value=>Value')
o += '''}
#[verifier::external_body] pub struct NodeBase { p: usize }
impl NodeBase { pub uninterp spec fn named(&self) -> Seq<char>; /** Outside a tree. */ pub uninterp spec fn fresh(&self) -> bool; }
/// The copy of a base (group heap).
pub uninterp spec fn same_base(a: NodeBase, b: NodeBase) -> bool;
impl NodeBase {
    #[verifier::external_body] pub fn new(name: String) -> (ret: Self) ensures ret.named() == name@, ret.fresh() { unimplemented!() }
    #[verifier::external_body] pub fn set_name_unchecked(&mut self, name: &str) ensures final(self).named() == name@, final(self).fresh() == old(self).fresh() { unimplemented!() }
}
impl Copied for NodeBase { open spec fn copied(a: Self, b: Self) -> bool { same_base(a, b) } #[verifier::external_body] fn clone(&self) -> Self { unimplemented!() } }

/// An entry of the saved state: its value, whose type says whether it is written.
#[verifier::external_body] pub struct Entry { p: usize }
pub uninterp spec fn entry<T>(t: T) -> Entry;
#[verifier::external_body] pub struct FieldMap { p: usize }
impl FieldMap {
    pub uninterp spec fn view(&self) -> Map<Seq<char>, Entry>;
    #[verifier::external_body] pub fn new() -> (ret: Self) ensures ret@ == Map::<Seq<char>, Entry>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn insert<T: Exportable>(&mut self, k: Box<str>, v: Box<T>) ensures final(self)@ == old(self)@.insert(k@, entry(*v)) { unimplemented!() }
}
/// The entry of a copy of x.
pub open spec fn copy_of<T: Copied>(e: Entry, x: T) -> bool { exists|c: T| #[trigger] T::copied(x, c) && e == entry(c) }
#[verifier::external_body] pub struct SFieldMap { p: usize }
impl SFieldMap {
    pub uninterp spec fn view(&self) -> Map<Seq<char>, Value>;
    #[verifier::external_body] pub fn remove(&mut self, k: &str) -> (ret: Option<Value>) ensures final(self)@ == old(self)@.remove(k@), ret == (if old(self)@.contains_key(k@) { Some(old(self)@[k@]) } else { None }) { unimplemented!() }
}
pub open spec fn reads<T: Exportable>(m: Map<Seq<char>, Value>, k: Seq<char>) -> bool { m.contains_key(k) && T::dec(m[k]) is Some }
pub enum ProcessMode { Inherit, Always, Pausable, Inverse }
pub mod node_tree { pub mod prelude { pub use super::super::{NodeBase, Signal}; } pub mod structs { pub mod node_field { pub use super::super::super::{Field, UniqueField, ExportableField, DefaultField}; } pub mod node_base { pub use super::super::super::NodeBase; } pub mod node_tree_base { pub use super::super::super::NodeTreeBase; } } pub mod services { pub mod node_registry { pub use super::super::super::{FieldMap, SFieldMap}; } } pub mod traits { pub mod exportable { pub use super::super::super::{Exportable, Voidable}; } pub mod element { pub use super::super::super::AsElement; } } }

/// The wrappers that scene! puts around values.
pub trait AsElement<F>: Sized { spec fn wrapped(self) -> F; fn wrap(self) -> (ret: F) ensures ret == self.wrapped(); }
'''
o += '''/// What Exportable gives to types that do not say it themselves, and how it asks a type without a value.
pub struct AnyExport<T> { pub t: T }
pub struct Place<T> { pub t: T }
/// Memory of a type that nothing was written to yet: is_ghost_export does not look at it.
#[verifier::external_body] pub fn place_of<T>() -> (ret: Place<T>) { unimplemented!() }
impl<T> Place<T> { #[verifier::external_body] pub fn assume_init_ref(&self) -> (ret: &T) { unimplemented!() } }
impl<T: Exportable> AnyExport<T> {
'''
fn('traits/exportable.rs', 'Exportable::is_ghost_export_type', ['ensures ret == T::ghost(),'], 'path=mem::MaybeUninit::<Self>::uninit=>place_of::<T>')
fn('traits/exportable.rs', 'Exportable::is_ghost_export', ['ensures ret == false,'])
fn('traits/exportable.rs', '<Exportable for ()>::is_ghost_export', ['ensures ret == true,'], 'as=is_ghost_export_of_unit')
o += '''}
/// A hook that a class does not write: the body that the trait Node gives.
pub struct Unwritten { pub state: u64 }
pub enum TerminationReason { TreeExit, Freed, RemovedAsChild }
impl Unwritten {
'''
for n in ('loaded', 'ready', 'process', 'terminal'): fn('traits/node.rs', f'Node::{n}', ['ensures *final(self) == *old(self),'])
fn('traits/node.rs', 'Node::process_mode', ['ensures ret is Inherit,'])
o += '}\n'
E_ = 'traits/element.rs'
for w, b, val in (('Field', '', 'Field::Valid(self)'), ('ExportableField', ': Exportable', 'ExportableField(self)'), ('UniqueField', '', 'UniqueField::Valid(self)'), ('DefaultField', ': Default', 'DefaultField(self)')):
    o += f'impl<T{b}> AsElement<{w}<T>> for T {{\n    open spec fn wrapped(self) -> {w}<T> {{ {val} }}\n'
    fn(E_, f'<AsElement<{w}<T>> for T>::wrap', [], 'priv')
    o += '}\n'
lens = sorted({n for c in CLASSES.values() for _, n, _, _ in c['fields']})
def distinct(names):
    out = ''.join(f'reveal_strlit("{n}"); assert("{n}"@.len() == {len(n)}); ' for n in names)
    for i, a in enumerate(names):
        for b in names[:i]:
            if len(a) == len(b):
                k = next(k for k in range(len(a)) if a[k] != b[k])
                out += f'assert("{a}"@[{k}] != "{b}"@[{k}]); '
    return out
for C, c in CLASSES.items():
    fs = c['fields']
    o += f'\n// {C}\n//@ type @classes {C}\nimpl {C} {{\n'
    def value(k, n, t, v, r):
        x = f'{r}.{n}'
        if k == 's': return f'idle({x})'
        if v is None: return f'preset({x}.0)'
        z = (f'{v}' if v in c['params'] or v in ('true', 'false') else f'{v}{"" if t == "String" or "<<" in v else t}' if not v.startswith('-') else f'{v}{t}')
        return {'f': f'{x} == Field::Valid({z})', 'u': f'{x} == UniqueField::Valid({z})', 'e': f'{x}.0 == {z}', 'x': f'{x}.0 == {z}', 'd': f'{x}.0 == {z}'}[k]
    fn('@classes', f'{C}::new', ['ensures', f'    ret.base.named() == "{C}"@, ret.base.fresh(),'] + ['    ' + value(k, n, t, v, 'ret') + ',' for k, n, t, v in fs])
    fn('@classes', f'<Clone for {C}>::clone', ['ensures', '    same_base(self.base, ret.base),'] + [f'    Copied::copied(self.{n}, ret.{n}),' for k, n, t, v in fs], 'path=::core::clone::Clone::clone=>Copied::clone')
    fn('@classes', f'<Deref for {C}>::deref', ['ensures *ret == self.base,'])
    fn('@classes', f'<DerefMut for {C}>::deref_mut', ['ensures *ret == old(self).base, final(self).base == *final(ret),'] + [f'    final(self).{n} == old(self).{n},' for k, n, t, v in fs])
    fn('@classes', f'<NodeAbstract for {C}>::base', ['ensures *ret == self.base,'], 'as=base_of')
    fn('@classes', f'<NodeAbstract for {C}>::base_mut', ['ensures *ret == old(self).base, final(self).base == *final(ret),'] + [f'    final(self).{n} == old(self).{n},' for k, n, t, v in fs], 'as=base_of_mut')
    names = ', '.join(f'"{n}"@' for _, n, _, _ in fs)
    fn('@classes', f'<Registered for {C}>::save_from_owned', ['ensures', f'    ret@.dom().subset_of(set![{names}]),'] + [f'    {"" if k in "ex" else f"""ret@.contains_key("{n}"@) ==> """}{f"""ret@.contains_key("{n}"@) && """ if k in "ex" else ""}copy_of(ret@["{n}"@], self.{n}),' for k, n, t, v in fs] + (['//@ hint entry', '    proof { ' + distinct([n for _, n, _, _ in fs]) + '}'] if fs else []), '')
    ex = [(n, t) for k, n, t, v in fs if k in 'ex']
    fn('@classes', f'<Registered for {C}>::load_from_owned', ['ensures',
        '    ret is Ok == (' + (' && '.join(f'reads::<ExportableField<{t}>>(owned_state@, "{n}"@)' for n, t in ex) or 'true') + '),',
        f'    ret matches Ok(r) ==> r.base.named() == "{C}"@ && r.base.fresh()' + ''.join(f' && Some(r.{n}) == <{WRAP[k]}<{t}> as Exportable>::dec(owned_state@["{n}"@])' if k in 'ex' else f' && Voidable::empty(r.{n})' for k, n, t, v in fs) + ',']
        + (['//@ hint entry', '    proof { ' + distinct([n for n, _ in ex]) + '}'] if ex else []), '')
    if c.get('mode'): fn('@classes', f'<Node for {C}>::process_mode', [f'ensures ret is {c["mode"]},'])
    if C == 'All': fn('@classes', '<Node for All>::process_mode', ['ensures ret is Always,'])
    o += '    /// Through Deref.\n    pub fn set_name_unchecked(&mut self, name: &str)\n        ensures final(self).base.named() == name@, final(self).base.fresh() == old(self).base.fresh(),' + ''.join(f' final(self).{n} == old(self).{n},' for _, n, _, _ in fs) + '\n    { self.deref_mut().set_name_unchecked(name) }\n}\n'
o += '''
// #[derive(Tree)]
#[verifier::external_body] pub struct NodeTreeBase { p: usize }
//@ type @classes Grove
impl Grove {
'''
T = '<NodeTree for Grove>'
fn('@classes', f'{T}::set_base', ['ensures final(self).base == Some(base), final(self).extra == old(self).extra,'])
fn('@classes', f'{T}::base', ['requires self.base is Some,', 'ensures *ret == self.base->0,'], 'as=base_of')
fn('@classes', f'{T}::base_mut', ['requires old(self).base is Some,', 'ensures *ret == old(self).base->0, final(self).base == Some(*final(ret)), final(self).extra == old(self).extra,'], 'as=base_of_mut')
fn('@classes', '<Deref for Grove>::deref', ['requires self.base is Some,', 'ensures *ret == self.base->0,'], 'subst=Self::Target=>NodeTreeBase')
fn('@classes', '<DerefMut for Grove>::deref_mut', ['requires old(self).base is Some,', 'ensures *ret == old(self).base->0, final(self).base == Some(*final(ret)), final(self).extra == old(self).extra,'], 'subst=Self::Target=>NodeTreeBase')
o += '''}

/// A scene: its root node, and the scenes below it with the mark whether they own themselves.
#[verifier::external_body] pub struct NodeScene { p: usize }
pub trait Kind: Sized {}
''' + ''.join(f'impl Kind for {C} {{}}\n' for C in CLASSES) + '''
/// The root node of the scene, and its class.
pub uninterp spec fn is_a<T>(s: NodeScene) -> bool;
pub uninterp spec fn top<T>(s: NodeScene) -> T;
pub uninterp spec fn same_scene(a: NodeScene, b: NodeScene) -> bool;
impl NodeScene {
    pub uninterp spec fn parts(&self) -> Seq<(NodeScene, bool)>;
    #[verifier::external_body] pub fn new<T: Kind>(node: T) -> (ret: Self) ensures is_a::<T>(ret), top::<T>(ret) == node, ret.parts().len() == 0 { unimplemented!() }
    #[verifier::external_body] pub fn append(&mut self, scene: NodeScene) ensures KEPT final(self).parts() == old(self).parts().push((scene, false)) { unimplemented!() }
    #[verifier::external_body] pub fn append_as_owner(&mut self, scene: NodeScene) ensures KEPT final(self).parts() == old(self).parts().push((scene, true)) { unimplemented!() }
    #[verifier::external_body] pub fn clone(&self) -> (ret: Self) ensures same_scene(ret, *self) { unimplemented!() }
}
'''.replace('KEPT', ''.join(f'is_a::<{C}>(*final(self)) == is_a::<{C}>(*old(self)), top::<{C}>(*final(self)) == top::<{C}>(*old(self)), ' for C in CLASSES))
def fresh(C, r, name=None, **given):
    c = CLASSES[C]; out = [f'{r}.base.named() == "{name or C}"@', f'{r}.base.fresh()']
    for k, n, t, v in c['fields']:
        x = f'{r}.{n}'
        if k == 's': out.append(f'idle({x})'); continue
        z = given.get(n) or v
        if z is None: out.append(f'preset({x}.0)'); continue
        if z.lstrip('-').isdigit() or z.startswith('0x'): z += t
        out.append({'f': f'{x} == Field::Valid({z})', 'u': f'{x} == UniqueField::Valid({z})'}.get(k, f'{x}.0@ == {z}@' if z.startswith('"') else f'{x}.0 == {z}'))
    return ' && '.join(out)
def is_(s, C, name=None, **g): return f'is_a::<{C}>({s}) && {fresh(C, f"top::<{C}>({s})", name, **g)}'
def part(s, *ix):
    for i in ix: s = f'{s}.parts()[{i}].0'
    return s
def kids(s, n): return f'{s}.parts().len() == {n}' + ''.join(f' && !{s}.parts()[{i}].1' for i in range(n))
R = 'ret'
fn('@classes', 'one', ['ensures', f'    {is_(R, "Bare")}, {kids(R, 0)},'])
fn('@classes', 'named', ['ensures', f'    {is_(R, "Bare", "top")}, {kids(R, 0)},'])
fn('@classes', 'row', ['ensures', f'    {is_(R, "Bare", "row")}, {kids(R, 3)},',
    f'    {is_(part(R, 0), "All", "a", tag="t", plain="p")}, {kids(part(R, 0), 0)},', f'    {is_(part(R, 1), "Bare")}, {kids(part(R, 1), 0)},', f'    {is_(part(R, 2), "Preset", "c")}, {kids(part(R, 2), 0)},'])
a, b, cc, d, e, f = (part(R, i) for i in range(6))
fn('@classes', 'nest', ['ensures', f'    {is_(R, "All", "root", tag=chr(34) + "root" + chr(34), plain="4", count="11")}, {kids(R, 5)},',
    f'    {is_(a, "Bare", "x")}, {kids(a, 3)},', f'    {is_(part(a, 0), "Preset", low="-8", high="9")}, {kids(part(a, 0), 0)},', f'    same_scene({part(a, 1)}, *link),',
    f'    {is_(part(a, 2), "Bare")}, {kids(part(a, 2), 1)},', f'    {is_(part(a, 2, 0), "Bare", "deep")}, {kids(part(a, 2, 0), 0)},', f'    same_scene({b}, *link),',
    f'    {is_(cc, "Preset", "y", word=chr(34) + "w" + chr(34))}, {kids(cc, 0)},', f'    {is_(d, "Preset", "z", flag="true")}, {kids(d, 1)},', f'    {is_(part(d, 0), "Bare", "zz")}, {kids(part(d, 0), 0)},',
    f'    {is_(e, "All", tag=chr(34) + "last" + chr(34), plain="1")}, {kids(e, 1)},', f'    same_scene({part(e, 0)}, *link),'])

# The drawn scenes.
def says(x, k, t, z):
    """That the field x of kind k and type t holds the expression z."""
    if z == 's.to_string()' or z == 'String::new()' or z == 'Vec::new()':
        what = {'s.to_string()': 's@', 'Vec::new()': 'Seq::<u8>::empty()'}[z]
        return f'({x} matches {WRAP[k]}::Valid(z) && z@ == {what})' if k in 'fu' else f'{x}.0@ == {what}'
    if z.startswith('if '): z = '(' + z.replace('{ 1 }', '{ 1u8 }').replace('{ 2 }', '{ 2u8 }').replace('{ 0 }', '{ 0u8 }') + ')'
    elif z.lstrip('-').isdigit(): z += t
    elif ' ' in z: z = f'({z})'
    return f'{x} == {WRAP[k]}::Valid({z})' if k in 'fu' else f'{x}.0 == {z}'
def whole(s, t):
    if t == 'link': return [f'same_scene({s}, *link)']
    C = t['C']; c = CLASSES[C]; r = f'top::<{C}>({s})'
    out = [f'is_a::<{C}>({s})', f'{r}.base.named() == "{t["name"] if t["name"] is not None else C}"@', f'{r}.base.fresh()']
    args = dict(zip(c['params'], t['args'])); sets = dict(t['sets'])
    for k, n, ty, v in c['fields']:
        x = f'{r}.{n}'
        if k == 's': out.append(f'idle({x})'); continue
        z = sets.get(n, args.get(v, v))
        out.append(f'preset({x}.0)' if z is None else says(x, k, ty, z))
    out.append(kids(s, len(t['kids'])))
    for i, q in enumerate(t['kids']): out += whole(part(s, i), q)
    return out
for name, t in decl.SCENES.items(): fn('@classes', name, ['ensures'] + ['    ' + x + ',' for x in whole('ret', t)])
o += '} // verus!\nfn main() {}\n'
open(os.path.join(V, 'contracts', 'classes.vc'), 'w').write(o)

# The declarations.
m = '// Written by tools/mkclasses.py from tools/decl.py.\n'
def sigargs(t): return ', '.join(f'a{i}: {x.strip()}' for i, x in enumerate(y for y in (t[1:-1].split(',') if t.startswith('(') else [t]) if y.strip()))
HOOKS = dict(loaded='&mut self', ready='&mut self', process='&mut self, _delta: f32', terminal='&mut self, _reason: TerminationReason')
def arg(t, k):
    """The value of parameter k of a constructor, in the variables p, s, v, o."""
    return {'String': f'format!("{{s}}{k}")', 'Vec<u8>': f'[v.clone(), vec![{k}]].concat()', 'Option<i8>': f'o.map(|x| x.wrapping_add({k}))', 'bool': f'(p as usize + {k}) % 3 == 0'}.get(t, f'(p as {t}).wrapping_mul(5).wrapping_add({k})')
KW = dict(f='', e='export ', x='export default ', d='default ', u='unique ')
NONE = dict(u8='0', bool='false', String='String::new()')
def zero(t): return {'bool': 'false', 'String': 'String::new()', 'Vec<u8>': 'Vec::<u8>::new()', 'Option<i8>': 'None::<i8>'}.get(t, f'0{t}')
def shown(t, z): return f'{{ let z: {t} = {z}; format!("{{z:?}}") }}'
for C, c in decl.CLS.items():
    body = ''
    for (k, n, t, v), pub in zip(c['fields'], c['pub']):
        p = 'pub ' if pub else ''
        body += f'    {p}signal {n}({sigargs(t)});\n' if k == 's' else f'    {p}{KW[k]}let {n}: {t}{"" if v is None or v in c["params"] else " = " + v};\n'
    if c['params']: body += f'    hk _init({", ".join(f"{n}: {t}" for n, t in c["ptypes"])}) {{}}\n'
    for h in c['hooks']: body += f'    hk {h}({HOOKS[h]}) {{ called("{C} {h}".to_string()); }}\n'
    if c['mode']: body += f'    hk process_mode(&self) -> ProcessMode {{ ProcessMode::{c["mode"]} }}\n'
    m += f'class! {{\n    {"" if c["private"] else "pub "}declare {C};\n{body}}}\n'
    args = [arg(t, i) for i, (n, t) in enumerate(c['ptypes'])]; byname = dict(zip(c['params'], args))
    vals = [f'String::from("signal")' if k == 's' else shown(t, zero(t) if v is None else byname.get(v, v)) for k, n, t, v in c['fields']]
    m += f"""fn held_{C}(x: &dyn Node) -> Option<Vec<String>> {{ let x = x.as_any_ref().downcast_ref::<{C}>()?; Some(vec![{', '.join(f'x.{n}.look()' for _, n, _, _ in c['fields'])}]) }}
fn make_{C}(p: u8, s: &str, v: &Vec<u8>, o: Option<i8>) -> (Box<dyn Node>, Vec<String>) {{ (Box::new({C}::new({', '.join(args)})), vec![{', '.join(vals)}]) }}
"""
m += f'pub const SAMPLES: [Sample; {len(decl.CLS)}] = [\n'
for C, c in decl.CLS.items():
    fs = ', '.join(f'"{n}"' for _, n, _, _ in c['fields']); zs = ', '.join('"signal"' if k == 's' else {'bool': '"false"', 'String': '"\\"\\""', 'Vec<u8>': '"[]"', 'Option<i8>': '"None"'}.get(t, '"0"') for k, _, t, _ in c['fields'])
    m += f'    Sample {{ name: "{C}", fields: &[{fs}], kinds: "{"".join(f[0] for f in c["fields"])}", zeros: &[{zs}], mode: ProcessMode::{c["mode"] or "Inherit"}, hooks: &[{", ".join(chr(34) + h + chr(34) for h in c["hooks"])}], make: make_{C}, held: held_{C} }},\n'
m += '];\n'
def text(t, ind):
    if t == 'link': return '$link'
    sep = ',\n' + ind + '    '; ks = [text(q, ind + '        ') for q in t['kids']]
    out = t['C'] + (f'({", ".join(t["args"])})' if t['args'] else '') + (f': "{t["name"]}"' if t['name'] is not None else '')
    block = '[\n' + ind + '    ' + sep.join(ks) + (',' if len(ks) % 2 else '') + '\n' + ind + ']' if ks else ''
    if t['sets']: return out + ' { ' + ', '.join(f'{n}: {z}' for n, z in t['sets']) + (', ' + block if block else ',' if len(t['sets']) % 2 else '') + ' }'
    return out + (' ' + block if block else '')
def want(t):
    if t == 'link': return 'inner.to_string()'
    c = decl.CLS[t['C']]; args = dict(zip(c['params'], t['args'])); sets = dict(t['sets'])
    vals = [f'String::from("signal")' if k == 's' else shown(ty, zero(ty) if sets.get(n, args.get(v, v)) is None else sets.get(n, args.get(v, v))) for k, n, ty, v in c['fields']]
    return f'told("{t["C"]}", "{t["name"] if t["name"] is not None else t["C"]}", vec![{", ".join(vals)}], vec![{", ".join(map(want, t["kids"]))}])'
for name, t in decl.SCENES.items():
    m += f"""#[allow(unused_variables)]
pub fn {name}(p: u8, s: &str, o: Option<i8>, link: &NodeScene) -> NodeScene {{
    scene! {{
        {text(t, '        ')}
    }}
}}
#[allow(unused_variables)]
fn want_{name}(p: u8, s: &str, o: Option<i8>, inner: &str) -> String {{ {want(t)} }}
"""
m += f'pub const SCENES: [(&str, fn(u8, &str, Option<i8>, &NodeScene) -> NodeScene, fn(u8, &str, Option<i8>, &str) -> String); {len(decl.SCENES)}] = [{", ".join(f"({chr(34)}{n}{chr(34)}, {n}, want_{n})" for n in decl.SCENES)}];\n'
open(os.path.join(V, 'classes', 'src', 'more.rs'), 'w').write(m)
